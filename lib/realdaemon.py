"""The daemon as it is: built, started on a scratch folder, talked to over HTTP, stopped, killed and started again.
Runs the same scenarios as the scheduler and records the same events; which task goes on when is left to the machine."""
import hashlib, fcntl, http.client, os, random, shutil, signal, socket, subprocess, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor
from common import *
from sim import INTER, build_interpose

SPEED = 25  # how much faster time passes for the daemon
WAIT = 25  # seconds after which an answer will not come any more


def build_real(bin="sourisd"):
    out = cargo(["build", "-q", "--bin", bin, "--config", "profile.dev.package.sourisdb.opt-level=1", "--config", "profile.dev.package.lz4_flex.opt-level=1", "--manifest-path", os.path.join(REPO, "Cargo.toml")], REPO, bin, extra={"RUSTFLAGS": "-Awarnings", "CARGO_TARGET_DIR": os.path.join(TARGET, "real")})
    build_interpose()
    return os.path.join(TARGET, "real", "debug", bin)


class Port:
    """a port that no other daemon of ours uses at the same time, and no outgoing connection is given"""

    def __init__(self):
        d = "/tmp/souris-ports"
        os.makedirs(d, exist_ok=True)
        while True:
            self.n = random.SystemRandom().randrange(10000, 32000)
            self.f = open(os.path.join(d, str(self.n)), "w")
            try:
                fcntl.flock(self.f, fcntl.LOCK_EX | fcntl.LOCK_NB)
            except OSError:
                self.f.close()
                continue
            with socket.socket() as s:
                try:
                    s.bind(("127.0.0.1", self.n))
                    return
                except OSError:
                    self.f.close()

    def free(self):
        self.f.close()


class Refused(OSError):
    pass


class Daemon:
    """one process"""

    def __init__(self, binary, base, scratch, speed=SPEED, crash=None, half=False, name="d"):
        self.base, self.scratch = base, scratch
        self.plan, self.gate, self.oplog = (os.path.join(scratch, name + x) for x in (".plan", ".gate", ".log"))
        os.makedirs(self.gate, exist_ok=True)
        for _ in range(4):
            self.held = Port()
            self.port = self.held.n
            e = {"PATH": "/usr/bin:/bin", "HOME": scratch, "BASE_LOCATION": base, "RUST_LOG": "off", "LD_PRELOAD": INTER, "IP_BASE": base, "IP_ALLOW": scratch + "/none", "IP_PORT": str(self.port),
                 "IP_SPEED": str(speed), "IP_PLAN": self.plan, "IP_GATE": self.gate, "IP_LOG": self.oplog}
            if crash is not None:
                e["IP_CRASH"] = str(crash)
                if half:
                    e["IP_CRASH_HALF"] = "1"
            self.err = open(os.path.join(scratch, name + ".err"), "w")
            self.p = subprocess.Popen([binary], env=e, cwd=scratch, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=self.err, preexec_fn=limits(8))
            if self.wait_up():
                break
            self.kill()
            if "AddrInUse" not in open(self.err.name).read():
                self.up = False
                return
        self.up = True

    def wait_up(self):
        end = time.time() + WAIT
        while time.time() < end:
            if self.p.poll() is not None:
                return False
            try:
                if self.ask("GET", "/healthcheck", b"")[0] == 200:
                    return True
            except OSError:
                pass
            time.sleep(.003)
        return False

    def ask(self, m, target, body, pause=None, timeout=WAIT, started=None):
        """one request over a connection of its own; pause is called when half of it has been sent"""
        try:
            s = socket.create_connection(("127.0.0.1", self.port), timeout=timeout)
        except OSError as e:
            raise Refused(str(e))
        try:
            if started:
                started()
            h = f"{m} {target} HTTP/1.1\r\nHost: localhost\r\nConnection: close\r\nContent-Length: {len(body)}\r\n\r\n".encode("latin-1")
            if pause:
                k = len(body) // 2
                s.sendall(h + body[:k])
                pause()
                s.sendall(body[k:])
            else:
                s.sendall(h + body)
            r = http.client.HTTPResponse(s, method=m)
            r.begin()
            return r.status, r.read()
        except http.client.HTTPException as e:
            raise ConnectionError(str(e))
        finally:
            s.close()

    def signal(self, sig):
        try:
            self.p.send_signal(sig)
        except ProcessLookupError:
            pass

    def wait(self, t=WAIT):
        try:
            return self.p.wait(t)
        except subprocess.TimeoutExpired:
            return None

    def kill(self):
        if self.p.poll() is None:
            self.p.kill()
            self.p.wait()
        self.err.close()
        self.held.free()

    def escapes(self):
        try:
            return [l.strip() for l in open(self.oplog, errors="replace") if " ESCAPE " in l]
        except FileNotFoundError:
            return []

    def content(self):
        """names, and the raw content of each"""
        s, b = self.ask("GET", "/v1/get_all_db_names", b"")
        out = []
        for n in sorted(json.loads(b)):
            s, c = self.ask("GET", "/v1/get_db?db_name=" + enc(n), b"")
            out.append([n, c if s == 200 else None])
        return out


def enc(s):
    return "".join(chr(b) if chr(b).isascii() and chr(b).isalnum() else f"%{b:02X}" for b in s.encode())


def token(v):
    """what stands for a value in a trace"""
    t = json.dumps(v)
    return t if len(t) < 10000 else "long " + hashlib.sha1(t.encode()).hexdigest()


class Bodies:
    """bodies made and read by the library, many at once"""

    def __init__(self):
        self.binary = build_conf()
        self.values, self.stores, self.read = {}, {}, {}

    @staticmethod
    def value(v):
        """an int, or a value as the executor writes it"""
        if isinstance(v, dict):
            return v["v"]
        return [4, [0, list(v.to_bytes((v.bit_length() + 7) // 8, "little"))]]

    def prepare(self, scenarios):
        vs, ss = {}, {}
        for lives in scenarios:
            for l in lives:
                for c in l["clients"]:
                    for s in c:
                        if s.get("op") == "add_kv":
                            vs[json.dumps(self.value(s["val"]))] = 0
                        if s.get("op") == "put_db":
                            for _, v in s["body"]:
                                vs[json.dumps(self.value(v))] = 0
                            ss[json.dumps(s["body"])] = s["body"]
                        if s.get("op") == "raw":
                            vs[json.dumps(self.value(s["val"]))] = 0
                            for _, v in s["body"]:
                                vs[json.dumps(self.value(v))] = 0
        vs = [k for k in vs if k not in self.values]
        for k, o in zip(vs, execute(self.binary, [{"op": "value", "v": json.loads(k), "dicts": [None]} for k in vs])):
            self.values[k] = (bytes(o["encs"][0]["enc"]), token(o["v"])) if o["r"] == "ok" else (b"", "unwritable")
        sk = [k for k in ss if k not in self.stores]
        for k, o in zip(sk, execute(self.binary, [{"op": "store", "v": [[[ord(c) for c in n], self.value(v)] for n, v in ss[k]]} for k in sk])):
            self.stores[k] = bytes(o["enc"]) if o["r"] == "ok" else b""

    def canon(self, v):
        return self.values[json.dumps(self.value(v))][1]

    def decode(self, raws):
        """{("value"|"store", bytes): what it holds}"""
        todo = [k for k in raws if k not in self.read]
        qs = [{"op": "vdec", "b": list(b), "d": None} if kind == "value" else {"op": "sdec", "b": list(b)} for kind, b in todo]
        for (kind, b), o in zip(todo, execute(self.binary, qs)):
            if o["r"] != "ok":
                self.read[kind, b] = ["undecodable"] if kind == "value" else [["undecodable", "undecodable"]]
            elif kind == "value":
                self.read[kind, b] = [token(o["v"])]
            else:
                self.read[kind, b] = sorted(["".join(map(chr, k)), token(v)] for k, v in o["v"])


def wire(s, bodies):
    q = lambda k: enc(s[k])
    f = lambda k: "true" if s.get(k) else "false"
    op = s["op"]
    if op == "raw":
        w = s["raw"]
        return w["m"], w["path"] + w["query"], bytes(w["body"])
    if op == "health":
        return "GET", "/healthcheck", b""
    if op == "names":
        return "GET", "/v1/get_all_db_names", b""
    if op == "get_db":
        return "GET", f"/v1/get_db?db_name={q('db')}", b""
    if op == "add_db":
        return "POST", f"/v1/add_db?db_name={q('db')}&overwrite_existing={f('over')}", b""
    if op == "put_db":
        return "PUT", f"/v1/add_db_with_content?db_name={q('db')}&overwrite_existing={f('over')}", bodies.stores[json.dumps(s["body"])]
    if op == "rm_db":
        return "POST", f"/v1/rm_db?db_name={q('db')}", b""
    if op == "clear":
        return "POST", f"/v1/clear_db?db_name={q('db')}", b""
    if op == "add_kv":
        return "PUT", f"/v1/add_kv?db_name={q('db')}&key={q('key')}&create_new_database={f('create')}&overwrite_key={f('over')}", bodies.values[json.dumps(Bodies.value(s["val"]))][0]
    if op == "rm_kv":
        return "POST", f"/v1/rm_kv?db_name={q('db')}&key={q('key')}", b""
    if op == "get_kv":
        return "GET", f"/v1/get_value?db_name={q('db')}&key={q('key')}", b""
    raise ToolError("request " + op)


class Life:
    def __init__(self, binary, plan, base, scratch, bodies, n):
        self.plan, self.binary, self.base, self.scratch, self.bodies, self.n = plan, binary, base, scratch, bodies, n
        self.ev, self.mu = [], threading.RLock()
        self.id = 0
        self.flight = 0
        self.over = self.stopping = False
        self.clock = time.time()
        self.done = [False] * len(plan["clients"])
        self.images = 0
        self.spoilt = []

    def log(self, **e):
        with self.mu:
            if not self.over:
                self.ev.append(e)

    def recover(self, src, twice):
        self.images += 1
        d = os.path.join(self.scratch, f"img{self.n}-{self.images}")
        shutil.copytree(src, os.path.join(d, "b"))
        out = []
        for k in range(2 if twice else 1):
            x = Daemon(self.binary, os.path.join(d, "b"), d, speed=1, name=f"r{k}")
            if not x.up:
                out.append("dead")
                break
            try:
                out.append(x.content())
            except (OSError, ValueError):
                out.append("dead")
            x.signal(signal.SIGTERM)
            if x.wait() is None:
                out[-1] = "dead"
            x.kill()
        shutil.rmtree(d, ignore_errors=True)
        return out

    def image(self, k, twice=False):
        with self.mu:
            d = os.path.join(self.scratch, f"snap{self.n}-{self.images}")
            self.images += 1
            if k not in ("exit", "crash"):
                hold = os.path.join(self.d.gate, "hold")
            if k not in ("exit", "crash"):
                open(hold, "w").close()
                time.sleep(.01)
            shutil.copytree(self.base, d)
            if k not in ("exit", "crash"):
                os.unlink(hold)
            self.ev.append({"e": "image", "k": k, "at": d, "twice": twice})

    def request(self, s):
        m, target, body = wire(s, self.bodies)
        with self.mu:
            if self.over:
                return False
            self.id += 1
            i = self.id
            self.flight += 1
        began = []

        def started():
            began.append(1)
            self.log(e="start", id=i, req=s)
        pause = None
        if s.get("slow"):
            pause = lambda: self.slowly(s)
        try:
            st, b = self.d.ask(m, target, body, pause=pause, started=started)
            self.log(e="end", id=i, resp=(st, b))
            return True
        except Refused:
            return False
        except TimeoutError:
            self.log(e="hang", why="no answer")
            return False
        except OSError:
            with self.mu:
                if began:
                    self.log(e="left", id=i)
                if s.get("slow") and self.d.p.poll() is None:
                    self.log(e="hang", why="a request being served at the stop was not answered")
            return False
        finally:
            with self.mu:
                self.flight -= 1

    def slowly(self, s):
        # long enough for the daemon to be serving it
        time.sleep(.15)
        if s["slow"] != "yes":
            self.stop(s["slow"])
            time.sleep(.15)

    def stop(self, sig):
        with self.mu:
            self.log(e="signal")
            self.stopping = True
        self.d.signal(signal.SIGINT if sig == "INT" else signal.SIGTERM)

    def client(self, i):
        try:
            for s in self.plan["clients"][i]:
                if self.over or self.d.p.poll() is not None:
                    return
                a = s.get("act")
                if a is None:
                    if s.get("leave"):
                        s = {k: v for k, v in s.items() if k != "leave"}
                    if not self.request(s):
                        return
                elif a == "adv":
                    time.sleep(s["ms"] / 1000 / SPEED * (.5 if s["ms"] < 9000 else 1.2))
                elif a == "idle":
                    self.idle()
                elif a == "busy":
                    end = time.time() + .3
                    w = os.path.join(self.d.gate, "busy")
                elif a == "reqs":
                    end = time.time() + .4
                    while time.time() < end and self.flight < s["n"]:
                        time.sleep(.0005)
                elif a == "after":
                    while not self.done[0] and not self.over and self.d.p.poll() is None:
                        time.sleep(.0005)
                elif a == "done":
                    end = time.time() + WAIT
                    while self.flight and time.time() < end:
                        time.sleep(.0005)
                elif a == "signal":
                    self.stop(s["sig"])
                elif a in ("fault", "heal"):
                    # while nothing is written, so that each attempt to write is wholly with or without it
                    with self.mu:
                        if a == "fault":
                            with open(self.d.plan, "a") as h:
                                name = "meta" if s["db"] == "meta" else s["db"]
                                h.write(f"/{name}.sdb {s['op']} {s['err']}\n")
                            self.log(e="fault", db=s["db"], op=s["op"])
                        else:
                            if os.path.exists(self.d.plan):
                                os.unlink(self.d.plan)
                            self.log(e="heal")
        finally:
            self.done[i] = True

    def idle(self):
        """so long that a save that began after the last request is over"""
        end = time.time() + WAIT
        while self.flight and time.time() < end:
            time.sleep(.001)
        t = time.time()
        time.sleep(12 / SPEED)
        # a slow machine gets more
        quiet = time.time()
        size = -1
        while time.time() < t + 10 and time.time() < quiet + 13 / SPEED:
            n = os.path.getsize(self.d.oplog) if os.path.exists(self.d.oplog) else 0
            if n != size and time.time() > t + 30 / SPEED and size >= 0:
                break
            size = n
            time.sleep(.002)
        time.sleep(25 / SPEED)
        with self.mu:
            if self.flight == 0 and self.d.p.poll() is None:
                self.log(e="adv", idle=10000)
                self.log(e="idle")
                self.image("idle")

    def run(self):
        p = self.plan
        blind = p.get("blind", [])
        if blind:
            # what there is, and what of it cannot be read now
            self.image("exit")
            self.ev[-1]["k"] = "up"
            self.ev.append({"e": "blind", "dbs": [b["db"] for b in blind]})
            self.spoil(blind)
        self.d = Daemon(self.binary, self.base, self.scratch, crash=p.get("kill"), half=p.get("half", False), name=f"d{self.n}")
        if os.path.exists(self.d.plan):
            os.unlink(self.d.plan)
        if not self.d.up:
            if blind:
                self.ev.append({"e": "died", "why": "it does not start"})
                self.image("exit")
                self.d.kill()
                self.right(self.base)
                return self.told()
            return [{"e": "image", "k": "up", "rec": "dead"}]
        if not blind:
            self.ev.append({"e": "image", "k": "up", "rec": self.d.content()})
        ts = [threading.Thread(target=self.client, args=(i,)) for i in range(len(p["clients"]))]
        [t.start() for t in ts]
        end = time.time() + 3 * WAIT
        while any(t.is_alive() for t in ts) and time.time() < end:
            if self.d.p.poll() is not None and not self.stopping:
                break
            time.sleep(.002)
        if p.get("kill") is not None and not self.stopping:
            # until it gets there, or until it has had time for a save
            t = time.time()
            while self.d.p.poll() is None and time.time() < t + 25 / SPEED:
                time.sleep(.002)
        if self.stopping or p.get("until_exit"):
            if not self.stopping:
                self.stop("TERM")
            rc = self.d.wait()
            [t.join(WAIT) for t in ts]
            if rc is None:
                self.log(e="hang", why="does not exit")
                self.d.kill()
                self.image("crash", p.get("again"))
            elif rc in (0, -9) and (rc == 0 or p.get("kill") is not None):
                if rc == 0:
                    self.log(e="exit")
                self.image("exit" if rc == 0 else "crash", p.get("again"))
            else:
                self.log(e="died", why=f"exit code {rc}")
                self.image("crash", p.get("again"))
        else:
            rc = self.d.p.poll()
            if rc is not None and not (rc == -9 and p.get("kill") is not None):
                self.log(e="died", why=f"exit code {rc}")
            self.d.signal(signal.SIGKILL)
            self.d.wait()
            [t.join(WAIT) for t in ts]
            self.image("crash", p.get("again"))
        self.over = True
        self.d.kill()
        self.right(self.base)
        return self.told()

    def spoil(self, blind):
        """makes files unreadable, for this start"""
        for b in blind:
            f = os.path.join(self.base, b["db"] + ".sdb")
            if b["how"] in ("look", "read", "hide"):
                with open(os.path.join(self.scratch, f"d{self.n}.plan"), "a") as h:
                    for o in ("look", "stat") if b["how"] == "hide" else (b["how"],):
                        h.write(f"/{b['db']}.sdb {o} {b['err']}\n")
            elif os.path.exists(f):
                was = open(f, "rb").read()
                now = {"empty": b"", "short": was[:-1], "junk": b"\xff\x01"}[b["how"]]
                open(f, "wb").write(now)
                self.spoilt.append((b["db"] + ".sdb", now, was))

    def right(self, d):
        """what was spoilt and is still there is put right again"""
        for f, now, was in self.spoilt:
            f = os.path.join(d, f)
            if os.path.exists(f) and open(f, "rb").read() == now:
                open(f, "wb").write(was)

    def told(self):
        for l in self.d.escapes():
            self.ev.append({"e": "escape", "why": l})
        for e in self.ev:
            if "at" in e:
                self.right(e["at"])
                r = self.recover(e["at"], e.pop("twice"))
                shutil.rmtree(e.pop("at"))
                e["rec"] = r[0]
                if len(r) > 1:
                    e["rec2"] = r[1]
        return self.ev


def run_real(binary, scenarios, bodies, timeout=600, jobs=None):
    """as run_sim"""
    bodies.prepare([s["lives"] for s in scenarios])
    out = [None] * len(scenarios)
    end = time.time() + timeout

    def one(k):
        if time.time() > end:
            return
        root = tempfile.mkdtemp(prefix="souris-real-", dir="/dev/shm")
        try:
            lives = []
            base = os.path.join(root, "base")
            os.makedirs(base)
            for n, p in enumerate(scenarios[k]["lives"]):
                l = Life(binary, p, base, root, bodies, n)
                lives.append(l.run())
                if any(e["e"] == "hang" or (e["e"] == "died" and "not start" not in e.get("why", "")) or e.get("rec") == "dead" for e in lives[-1]):
                    break
            out[k] = {"id": scenarios[k]["id"], "lives": lives}
        finally:
            shutil.rmtree(root, ignore_errors=True)

    with ThreadPoolExecutor(jobs or 2 * CPUS) as ex:
        list(ex.map(one, range(len(scenarios))))
    # what the bodies held
    raws = {}
    for r in out:
        for l in r["lives"] if r else []:
            for e in l:
                for x in ("rec", "rec2"):
                    if isinstance(e.get(x), list):
                        for _, c in e[x]:
                            if c is not None:
                                raws["store", c] = 0
                if e["e"] == "end":
                    pass
    ops = [(l, {e["id"]: e["req"]["as"] if e["req"]["op"] == "raw" else e["req"]["op"] for e in l if e["e"] == "start"}) for r in out if r for l in r["lives"]]
    for l, m in ops:
        for e in l:
            if e["e"] == "end" and e["resp"][0] < 300:
                if m[e["id"]] == "get_db":
                    raws["store", e["resp"][1]] = 0
                if m[e["id"]] == "get_kv":
                    raws["value", e["resp"][1]] = 0
    bodies.decode(raws)
    for l, m in ops:
        for e in l:
            for x in ("rec", "rec2"):
                if isinstance(e.get(x), list):
                    e[x] = [[n, bodies.read["store", c] if c is not None else [["missing", "missing"]]] for n, c in e[x]]
            if e["e"] == "end":
                st, b = e["resp"]
                op = m[e["id"]]
                try:
                    c = [] if st >= 300 else sorted(json.loads(b)) if op == "names" else bodies.read["store", b] if op == "get_db" else bodies.read["value", b] if op == "get_kv" else [json.loads(b)] if op == "add_kv" else []
                except ValueError:
                    c = ["undecodable"]
                e["resp"] = {"s": st, "b": c}
            if e["e"] == "start":
                q = dict(e["req"])
                if q["op"] in ("add_kv", "raw"):
                    q["val"] = bodies.canon(q["val"])
                if q["op"] in ("put_db", "raw"):
                    q["body"] = sorted([k, bodies.canon(v)] for k, v in q["body"])
                e["req"] = q
    return out, ""
