"""The check of K01: what the two clients ask for and what they report, judged by TLC against spec/Clients.tla."""
import http.client, json, os, random, shutil, socket, sys, tempfile, threading, time, urllib.parse
import gen, realdaemon
from common import *
from daemongen import ODD, WRONG

OPS = ["new", "list", "create", "get", "put", "add", "rm_key", "rm_db"]
OUTCOMES = ["InsertedKeyIntoExistingDB", "OverwroteKeyInExistingDB", "FoundExistingKey", "InsertedKeyIntoNewDB", "UnableToFindDB"]
REASON = {200: "OK", 201: "Created", 410: "Gone"}
RULE = ("a case is one call of a client against a server that records requests and gives a prepared answer, or one history of calls of both clients against the real daemon; TLC judges each; "
        "it is distinct and non-trivial when its calls, arguments and answers differ from all others")


def build_clients():
    cargo(["build", "-q"], os.path.join(V, "harness", "clients"), "the clients' executor")
    return os.path.join(TARGET, "debug", "clients")


class Calls(Runner):
    """The executor; lines of its output that are no answers come from the library."""

    def ask(self, case):
        if self.p is None:
            self.start()
        end = time.time() + self.timeout
        try:
            self.p.stdin.write((json.dumps(case) + "\n").encode())
            self.p.stdin.flush()
        except BrokenPipeError:
            pass
        while True:
            while b"\n" in self.buf:
                line, self.buf = self.buf.split(b"\n", 1)
                if line.startswith(b'{"'):
                    return json.loads(line)
            r, _, _ = select.select([self.p.stdout], [], [], max(0, end - time.time()))
            if not r:
                self.stop()
                return {"r": "hang", "s": 0}
            d = os.read(self.p.stdout.fileno(), 1 << 20)
            if not d:
                rc = self.p.wait()
                self.p = None
                if rc == 3:
                    raise ToolError("the executor could not read a case: " + short(case))
                return {"r": "abort", "s": 0, "rc": rc}
            self.buf += d


class Fake:
    """A server on the loopback: records what it is asked and answers as it is told."""

    def __init__(self):
        self.s = socket.socket()
        self.s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        self.s.bind(("127.0.0.1", 0))
        self.s.listen(64)
        self.port = self.s.getsockname()[1]
        self.seen, self.plan, self.lock = [], None, threading.Lock()
        threading.Thread(target=self.accept, daemon=True).start()

    def accept(self):
        while True:
            try:
                c, _ = self.s.accept()
            except OSError:
                return
            threading.Thread(target=self.serve, args=(c,), daemon=True).start()

    def close(self):
        self.s.close()

    def serve(self, c):
        c.settimeout(60)
        f = c.makefile("rb")
        try:
            while self.one(c, f):
                pass
        except (OSError, ValueError, IndexError):
            pass
        finally:
            f.close()
            c.close()

    def one(self, c, f):
        line = f.readline(1 << 20)
        if not line.strip():
            return False
        m, target, _ = line.decode("latin-1").split(" ")
        h = http.client.parse_headers(f)
        if "chunked" in (h.get("Transfer-Encoding") or ""):
            body = b""
            while True:
                n = int(f.readline().split(b";")[0], 16)
                body += f.read(n)
                f.readline()
                if n == 0:
                    break
        else:
            body = f.read(int(h.get("Content-Length") or 0))
        path, _, q = target.partition("?")
        try:
            ps = urllib.parse.parse_qsl(q, keep_blank_values=True, errors="strict")
        except ValueError:
            ps = [["?", q]]
        with self.lock:
            plan = self.plan
            if path == "/healthcheck" and not plan["health"]:
                plan = dict(s=200, b=b"", mode="plain")
            else:
                self.seen.append({"m": m, "path": urllib.parse.unquote(path), "params": [[n, v, [ord(x) for x in v]] for n, v in ps], "body": list(body)})
        return self.answer(c, plan)

    @staticmethod
    def answer(c, p):
        mode, b = p["mode"], p["b"]
        if mode == "drop":
            return False
        if mode == "garbage":
            c.sendall(b"hello, this is not HTTP\r\n\r\n")
            return False
        head = f"HTTP/1.1 {p['s']} {REASON.get(p['s'], 'So')}\r\n"
        if p["s"] == 204:
            c.sendall((head + "\r\n").encode())
            return True
        if mode in ("chunked", "chunked-cut"):
            c.sendall((head + "Transfer-Encoding: chunked\r\n\r\n").encode())
            k = max(1, len(b) // 3)
            parts = [b[i:i + k] for i in range(0, len(b), k)]
            for x in parts if mode == "chunked" else parts[:-1]:
                c.sendall(f"{len(x):x}\r\n".encode() + x + b"\r\n")
            if mode == "chunked":
                c.sendall(b"0\r\n\r\n")
                return True
            return False
        if mode == "until-close":
            c.sendall((head + "Connection: close\r\n\r\n").encode() + b)
            return False
        more = 0 if mode != "cut" else 5
        c.sendall((head + ("Connection: close\r\n" if mode == "close" else "") + f"Content-Length: {len(b) + more}\r\n\r\n").encode())
        if mode == "split":
            for i in range(0, len(b), max(1, len(b) // 4)):
                c.sendall(b[i:i + max(1, len(b) // 4)])
                time.sleep(.002)
        else:
            c.sendall(b)
        return mode not in ("close", "cut")


def cps(s):
    return [ord(c) for c in s]


def text(cp):
    return "".join(map(chr, cp))


class Inputs:
    def __init__(self, seed):
        self.g = gen.Gen(seed)
        self.r = self.g.r
        self.conf = build_conf()
        n = 400 if THOROUGH else 150
        vs = [self.g.value(self.r.choice([0, 1, 2]), True) for _ in range(n)]
        vs += [v for k in range(16) for v in [self.g.value(1, kinds=[k])] * 2]
        self.values = [(v, o["v"]) for v, o in zip(vs, execute(self.conf, [{"op": "value", "v": v, "dicts": [None]} for v in vs])) if o["r"] == "ok"]
        ss = [[]] + [self.g.entries(self.r.choice([1, 1, 2, 3, 5, 9]), 1, True) for _ in range(n // 2)]
        so = execute(self.conf, [{"op": "store", "v": s} for s in ss])
        sd = execute(self.conf, [{"op": "sdec", "b": o["enc"]} for o in so if o["r"] == "ok"])
        # what is there is what was asked for: that is the concern of C02
        self.stores = [(s, o["enc"], d["v"]) for (s, o), d in zip([x for x in zip(ss, so) if x[1]["r"] == "ok"], sd) if d["r"] == "ok"]
        if len(self.values) < 50 or len(self.stores) < 20:
            raise ToolError("the library hardly writes anything")

    def name(self, plain=.4):
        r = self.r
        x = r.random()
        if x < plain:
            return r.choice(["a", "b", "users", "My-Db.2"])
        if x < .8:
            return r.choice(ODD + WRONG)
        return text(self.g.text())

    def key(self):
        r = self.r
        x = r.random()
        return r.choice(["k", "l", "m"]) if x < .4 else r.choice(ODD + WRONG + ["&overwrite_key=true", "a=b&c=d", "%", "%zz", "+", " ", "\u00a0", "😀", "?", "#", "key=1"]) if x < .8 else text(self.g.text())

    def call(self, kind, op, name=None, key=None):
        r = self.r
        c = dict(kind=kind, op=op, db=name if name is not None else self.name(), key=key if key is not None else self.key(), over=r.random() < .5, create=r.random() < .5, val=None, body=[], given=0)
        if op == "add":
            c["val"], c["given"] = r.choice(self.values)
        if op == "put":
            c["body"], _, c["given"] = r.choice(self.stores)
        return c

    def answer(self, c):
        """a prepared answer: status, body, how it is sent, whether the body is of the right kind, what it holds"""
        r = self.r
        op = c["op"]
        p = dict(s=200, b=b"", mode=r.choice(["plain", "plain", "plain", "chunked", "split", "close", "until-close"]), readable=True, holds=[], health=op == "new")
        good = {"list": self.names, "get": self.store, "add": self.outcome}.get(op)
        if good:
            p["b"], p["holds"] = good()
        x = r.random()
        if x < .45:
            if op in ("create", "put"):
                p["s"] = r.choice([200, 201])
            elif op in ("list", "get", "add", "rm_key", "rm_db") and r.random() < .1:
                p["s"] = 201
        elif x < .8:
            p["s"] = r.choice([400, 401, 404, 405, 410, 410, 413, 415, 418, 422, 429, 500, 500, 502, 503, 504, 507, 599])
            if r.random() < .5:
                p["b"] = r.choice([b"", b"oh no", b'"FoundExistingKey"', b"[]", b"null"])
        elif x < .9 and good:
            p["readable"], p["holds"] = False, []
            b = p["b"]
            p["b"] = r.choice([b"", b[:r.randrange(len(b))]] + {"list": [b"null", b"{}", b'["a", 1]', b'"a"', b"[a]", b"\xff\xfe", b'["a"] x'], "get": [b"nonsense", b"\x00" * 40],
                                                                "add": [b"null", b'"Added"', b"true", b'"insertedKeyIntoNewDB"', b"[]", b"{}"]}[op])
        else:
            p["s"], p["mode"] = 0, r.choice(["drop", "drop", "garbage"] + ["cut", "chunked-cut"] * (4 if good and p["b"] else 0))
            if p["mode"] in ("cut", "chunked-cut"):
                p["sent"] = 200
        return p

    def names(self):
        r = self.r
        ns = sorted({self.name() for _ in range(r.choice([0, 1, 2, 3, 10]))})
        r.shuffle(ns)
        t = json.dumps(ns, ensure_ascii=r.random() < .5, indent=r.choice([None, 1]))
        return t.encode(), [cps(n) for n in ns]

    def store(self):
        _, enc, v = self.r.choice(self.stores)
        return bytes(enc), v

    def outcome(self):
        o = self.r.choice(OUTCOMES)
        return json.dumps(o).encode(), [o]


def for_executor(c, port, **more):
    j = dict(kind=c["kind"], op=c["op"], db=cps(c["db"]), key=cps(c["key"]), over=c["over"], create=c["create"], body=c["body"], port=port)
    if c["val"] is not None:
        j["val"] = c["val"]
    j.update(more)
    return j


def for_tlc(c):
    return dict(kind=c["kind"], op=c["op"], db=c["db"], cp=cps(c["db"]), key=c["key"], over=c["over"], create=c["create"], val="", body=[])


def outcome(o):
    """as TLC reads it"""
    t = {"r": o["r"], "s": o.get("s", 0), "t": o.get("t", "")}
    for k in ("names", "store"):
        t[k] = o.get(k, [])
    return t


def calls(inp, binary, n):
    """single calls against the recording server"""
    todo = []
    for i in range(n):
        c = inp.call(["sync", "async"][i % 2], OPS[(i // 2) % len(OPS)])
        p = inp.answer(c)
        x = inp.r.random()
        todo.append((c, p, "closed" if x < .02 else "port" if x < .03 else "fake"))
    out, errs = [None] * n, []

    def share(k):
        run, fake = Calls(binary), Fake()
        try:
            for i in range(k, n, CPUS):
                c, p, where = todo[i]
                fake.plan, fake.seen = dict(p, s=p.get("sent", p["s"])), []
                if where == "fake":
                    o = run.ask(for_executor(c, fake.port, fresh=p["mode"] in ("drop", "cut", "chunked-cut", "garbage")))
                    time.sleep(0)
                    wires = fake.seen
                else:
                    # nobody listens there, or nobody can
                    free = realdaemon.Port()
                    port = free.n if where == "closed" else 65536 + fake.port
                    o = run.ask(for_executor(dict(c, op="new"), port))
                    free.free()
                    wires, p = [], dict(p, s=0, readable=False)
                    c = dict(c, op="new")
                call = for_tlc(c)
                out[i] = {"chk": "call", "call": call, "given": c["given"], "wires": wires, "s": p["s"], "readable": p["readable"], "holds": p["holds"], "b": list(p["b"]) if c["op"] == "get" else [],
                          "o": outcome(o), "served": where == "fake"}
        except Exception as e:
            errs.append(e)
        finally:
            run.stop()
            fake.close()
    ts = [threading.Thread(target=share, args=(k,)) for k in range(CPUS)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    if errs:
        raise errs[0]
    return out


canon = realdaemon.token  # what stands for a value in a history



def histories(inp, binary, daemon, n, length):
    """calls of both clients against the daemon as it is"""
    out, errs = [None] * n, []
    r = inp.r
    plans = []
    for _ in range(n):
        dbs = r.sample(["a", "b", "My-Db.2", "a b", "x" * 240, "..", ".", "%41", "a&b=c", "meta", "a/b", "é", ""], 4)
        ks = [inp.key() for _ in range(4)]
        w = r.choice([dict(add=8, rm_key=3, get=4, list=1, create=2, put=2, rm_db=1), dict(add=4, put=6, get=4, create=3, rm_db=3, list=3), dict(add=6, get=3, rm_key=1)])
        only = r.choice([None, None, "sync", "async"])
        plan = []
        for _ in range(length):
            c = inp.call(only or r.choice(["sync", "async"]), r.choices(list(w), list(w.values()))[0], r.choices(dbs, [6, 3, 2, 1])[0], r.choice(ks))
            plan.append(c)
            if c["op"] in ("add", "put", "create") and r.random() < .7:
                plan.append(inp.call(c["kind"], "get", c["db"]))
        plans.append(plan)
    # a value and a store of more than four megabytes, whichever way they are sent
    big = [2, list(r.randbytes(4300000))]
    for i, kind in enumerate(["sync", "async"]):
        c = inp.call(kind, "add", "a", "k")
        c.update(val=big, given=big, create=True, over=True)
        plans[i] = [inp.call(kind, "put", "a"), c, inp.call(["sync", "async"][1 - i], "get", "a"), inp.call(kind, "get", "a"), inp.call(kind, "rm_key", "a", "k"), inp.call(kind, "get", "a")]

    def share(k):
        run = Calls(binary)
        scratch = tempfile.mkdtemp(prefix="souris-clients-")
        try:
            for i in range(k, n, CPUS):
                base = os.path.join(scratch, f"b{i}")
                os.makedirs(base)
                d = realdaemon.Daemon(inp.daemon, base, scratch, name=f"d{i}")
                if not d.up:
                    raise ToolError("the daemon does not start")
                try:
                    cs, os_ = [], []
                    for c in plans[i]:
                        o = outcome(run.ask(for_executor(c, d.port)))
                        o["names"] = [text(x) for x in o["names"]]
                        o["store"] = [[text(a), canon(b)] for a, b in o["store"]]
                        os_.append(o)
                        t = for_tlc(c)
                        if c["op"] == "add":
                            t["val"] = canon(c["given"])
                        if c["op"] == "put":
                            t["body"] = [[text(a), canon(b)] for a, b in c["given"]]
                        cs.append(t)
                    left = d.content()
                finally:
                    d.kill()
                out[i] = {"chk": "hist", "calls": cs, "outs": os_, "left": left}
        except Exception as e:
            errs.append(e)
        finally:
            run.stop()
            shutil.rmtree(scratch, ignore_errors=True)
    ts = [threading.Thread(target=share, args=(k,)) for k in range(CPUS)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    if errs:
        raise errs[0]
    bodies = realdaemon.Bodies()
    bodies.decode({("store", c) for o in out for _, c in o["left"] if c is not None})
    for o in out:
        o["left"] = [[a, [["gone", "gone"]] if c is None else bodies.read["store", c]] for a, c in o["left"]]
    return out


def listed(binary, found):
    """the asynchronous client's removal of what is not there, which one sentence of its documentation calls no error"""
    k = known("K01")
    f = Fake()
    run = Calls(binary)
    try:
        f.plan = dict(s=400, b=b"", mode="plain", health=False)
        c = dict(kind="async", op="rm_key", db="a", key="k", over=False, create=False, val=None, body=[])
        if run.ask(for_executor(c, f.port))["r"] == "err" and "remove-missing" in k:
            print("KNOWN-FINDING: property=K01 " + k["remove-missing"], flush=True)
    finally:
        run.stop()
        f.close()


def run(prop):
    t0 = time.time()
    binary = build_clients()
    inp = Inputs(SEED * 1000 + 101)
    inp.daemon = realdaemon.build_real()
    from sim import build_interpose
    build_interpose()
    st, found, total, seen, nc, nh, samples = [0, 0], [], 0, set(), 0, 0, []
    end = t0 + (500 if THOROUGH else 0)
    while True:
        cases = calls(inp, binary, 2400 if THOROUGH else 1200) + histories(inp, binary, None, 64 if THOROUGH else 32, 40)
        nc += sum(c["chk"] == "call" for c in cases)
        nh += sum(len(c["calls"]) for c in cases if c["chk"] == "hist")
        bad, s = judge(prop, "ClientCases", cases, timeout=600)
        st = [st[0] + s[0], st[1] + s[1]]
        samples = samples or [cases[0], {k: v[:3] if isinstance(v, list) else v for k, v in cases[-1].items()}]
        for c in cases:
            seen.add(hash(json.dumps([c.get("call"), c.get("calls"), c.get("s"), c.get("b"), c.get("given")])))
        for i in bad:
            if len(found) < 12:
                found.append(cases[i])
        total += len(cases)
        if found or time.time() > end:
            break
    for i, f in enumerate(found):
        violation(prop, replay_file(prop, f"violation-{i}.json", f))
    listed(binary, found)
    sys.stderr.write(f"{prop}: {nc} calls, {nh} calls in histories, {time.time() - t0:.0f} s, found {len(found)}\n")
    evidence(prop, "exploration", dict(evaluations=total, distinct_nontrivial=len(seen), rule=RULE, calls=nc, calls_in_histories=nh, tlc_states=st[1], samples=samples), t0, len(found),
             ["the recording server reads HTTP correctly", "TLC evaluates the specification correctly"])
    return 1 if found else 0
