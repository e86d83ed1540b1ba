"""The check of K02: the interactive tool at a terminal, against the daemon as it is; TLC judges each run against spec/Mouse.tla."""
import decimal, json, os, random, shutil, struct, sys, tempfile, threading, time
import gen, realdaemon
from common import *
from clientcheck import Inputs, cps, text
from libcases import exact_in_text, texts_json
from sim import INTER, build_interpose
from term import Program

KINDS = ["Character", "String", "Binary", "Boolean", "Integer", "Imaginary", "Timestamp", "JSON", "Map", "Null", "DoubleFloat", "Array", "Timezone", "Ipv4Addr", "Ipv6Addr", "SingleFloat"]
RULE = ("a case is one run of the tool at a terminal: a command, the answers to its prompts, the databases before and after, the file it wrote; TLC judges each; it is distinct and non-trivial when its command, "
        "answers or databases differ from all others")
DOWN = b"\x1b[B"


def typeable(t):
    return all((32 <= c < 127 or c >= 0xA0) and c not in (0x2028, 0x2029, 0xFEFF) and not 0x200B <= c <= 0x200F for c in t)


class Typist:
    """How a value is spelt at the prompts: a list of ("key", bytes), ("text", str), ("pick", str, filter)."""

    def __init__(self, r, scratch):
        self.r, self.scratch, self.n = r, scratch, 0

    def yes(self):
        return ("key", b"y" if self.r.random() < .7 else b"xY")

    def no(self):
        return ("key", b"n" if self.r.random() < .7 else b"\rN")

    def line(self, t, wrong=()):
        """a line; sometimes a wrong one first, which has to be refused"""
        out = []
        if wrong and self.r.random() < .15:
            out.append(("text", self.r.choice(wrong)))
        if self.r.random() < .05:
            out.append(("text", ""))
        if len(t) and self.r.random() < .1:
            out.append(("key", b"Q\x7f"))
        return out + [("text", t)]

    def value(self, v):
        r, (k, p) = self.r, v
        s = [("pick", KINDS[k], KINDS[k][:r.randrange(2, 9)] if r.random() < .4 else "")]
        num = lambda x: str((-1 if x[0] else 1) * int.from_bytes(bytes(x[1]), "little"))
        f64 = lambda b: self.float(struct.unpack("<d", bytes(b))[0])
        if k == 0:
            s += self.line(chr(p), ["ab"])
        elif k == 1:
            s += self.line(text(p))
        elif k == 2:
            self.n += 1
            f = os.path.join(self.scratch, f"bin{self.n}")
            with open(f, "wb") as h:
                h.write(bytes(p))
            s += self.line(f, [f + ".not", self.scratch])
        elif k == 3:
            s.append(("pick", ["False", "True"][p], ""))
        elif k == 4:
            s += self.line(num(p), ["twelve", "1.5", "- 1", "0x10"])
        elif k == 5:
            if p[0] == 0:
                s += [("pick", "Polar*", "")] + self.line(f64(p[1]), ["x"]) + self.line(f64(p[2]), ["1,5"])
            else:
                s += [("pick", "Cartesian*", "")] + self.line(num(p[1]), ["i"]) + self.line(num(p[2]), ["2.0"])
        elif k == 6:
            y, mo, d, h, mi, sec, ns = p
            s.append(self.no())
            if ns % 10 ** 6 or ns >= 10 ** 9 or r.random() < .5:
                sec, ns = (60, ns - 10 ** 9) if ns >= 10 ** 9 else (sec, ns)
                ys = f"{y:04d}" if 0 <= y <= 9999 else f"{y:+05d}"
                s += [self.yes()] + self.line(f"{ys}-{mo:02d}-{d:02d}T{h:02d}:{mi:02d}:{sec:02d}" + (f".{ns:09d}" if ns or r.random() < .3 else ""), ["now", f"{ys}-{mo:02d}-{d:02d}", "2023-02-29T00:00:00"])
            else:
                s.append(self.no())
                if r.random() < .3:
                    s += [("text", x) for x in ("2023", "2", "29")]
                s += self.line(str(y), ["y"]) + self.line(str(mo), ["Mar"]) + self.line(str(d), ["-1"])
                if r.random() < .3:
                    s += [("text", x) for x in ("24", "0", "0", "0")]
                s += self.line(str(h)) + self.line(str(mi)) + self.line(str(sec)) + self.line(str(ns // 10 ** 6))
        elif k == 7:
            s += self.line(text(p), ["{", "nul"])
        elif k == 8:
            es = [(a, b) for a, b in p]
            r.shuffle(es)
            if es and r.random() < .4:
                es.insert(0, (es[-1][0], [9, 0]))  # a key given twice: the later one holds
            if r.random() < .5:
                s += [self.yes()] + self.line(str(len(es)), ["many", "-1"])
                for a, b in es:
                    s += self.line(text(a)) + self.value(b)
            else:
                s.append(self.no())
                for a, b in es:
                    s += [self.no()] + self.line(text(a)) + self.value(b)
                s.append(self.yes())
        elif k == 10:
            s += self.line(f64(p), ["1.2.3", "ten"])
        elif k == 11:
            if not p or r.random() < .5:
                s += [self.yes()] + self.line(str(len(p)), ["few"])
                for b in p:
                    s += self.value(b)
            else:
                s.append(self.no())
                for i, b in enumerate(p):
                    s += self.value(b) + [self.no() if i + 1 < len(p) else self.yes()]
        elif k == 12:
            s.append(("pick", text(p), text(p)))
        elif k == 13:
            s += self.line(".".join(map(str, p)), ["1.2.3", "1.2.3.256", "localhost"])
        elif k == 14:
            s += self.line(":".join(f"{x:x}" for x in p), ["1:2:3", "127.0.0.1"])
        elif k == 15:
            s += self.line(self.single(struct.unpack("<f", bytes(p))[0], bytes(p)), ["f"])
        return s

    def float(self, x):
        return repr(x)

    def single(self, x, b):
        """a decimal that lies nearer to this float than to any other, however little"""
        n = int.from_bytes(b, "little")
        if self.r.random() < .4 and 0 < n & 0x7FFFFFFF < 0x7F000000:
            at = lambda k: decimal.Decimal(struct.unpack("<f", k.to_bytes(4, "little"))[0])
            with decimal.localcontext() as c:
                c.prec = 400
                up = self.r.random() < .5
                mid = (at(n) + at(n + 1 if up else n - 1)) / 2
                t, far = format(mid, "f"), "0" * self.r.choice([0, 3, 20])
                # nearer to zero than the middle is where a float with fewer bits lies
                if not up:
                    return (t if "." in t else t + ".") + far + "1"
                t = format(mid - decimal.Decimal(10) ** -(len(t.partition(".")[2] + far) + 1) * (1 if mid > 0 else -1), "f")
                return t
        return repr(x)


def enterable(v):
    """whether the prompts can spell this value at all"""
    k, p = v
    if k == 0:
        return typeable([p])
    if k == 1:
        return p != [] and typeable(p) and len(p) < 400
    if k == 2:
        return len(p) < 2000
    if k in (10, 15):
        x = struct.unpack("<d" if k == 10 else "<f", bytes(p))[0]
        return x == x
    if k == 5:
        return p[0] == 1 or all(enterable([10, b]) for b in p[1:])
    if k == 6:
        return True
    if k == 7:
        return typeable(p) and len(p) < 400
    if k == 8:
        return len(p) < 6 and all(a != [] and typeable(a) and enterable(b) for a, b in p)
    if k == 11:
        return len(p) < 6 and all(map(enterable, p))
    return True


def listed_items(screen):
    """the lines of the list above the cursor"""
    ls, out = screen.lines(), []
    i = screen.r - 1
    while i >= 0 and (ls[i].startswith("  ") or ls[i].startswith("❯ ")):
        out.append(ls[i])
        i -= 1
    return out[::-1]


class Session:
    def __init__(self, mouse, daemon, scratch, host):
        self.mouse, self.d, self.scratch, self.host = mouse, daemon, scratch, host
        self.env = {"LD_PRELOAD": INTER, "IP_BASE": scratch, "IP_PORT": str(daemon.port), "TERM": "xterm", "LANG": "C.UTF-8", "PATH": "/usr/bin:/bin", "HOME": scratch, "IP_LOG": os.path.join(scratch, "mouse.log")}

    def run(self, args, answers, cut, meanwhile):
        """answers: lists of steps. Gives how it ended and how many answers it took. meanwhile is called when the last answer is waited for."""
        # a table is shown as wide as it has to be
        p = Program([self.mouse, self.host] + args, self.env, self.scratch, 60000 if args[0] == "view-all" else 500)
        used = 0
        try:
            for i, steps in enumerate(answers):
                for j, s in enumerate(steps):
                    x = p.ready(20)
                    if x is not True:
                        return (8 if x is None else p.code), used, p.screen.lines()
                    if i + 1 == len(answers) and j == 0:
                        meanwhile()
                    if not self.step(p, s):
                        return 8, used, p.screen.lines()
                used += 1
            x = p.ready(20)
            if x and cut:
                p.send(b"\x03")
                x = p.ready(20)
            return (p.code if x is False else 8), used, p.screen.lines()
        finally:
            p.close()

    def step(self, p, s):
        if s[0] == "key":
            for b in s[1]:
                p.send(bytes([b]))
                if b != s[1][-1] and p.ready(20) is not True:
                    return False
            return True
        if s[0] == "text":
            p.send(s[1].encode() + b"\r")
            return True
        if s[2]:
            p.send(s[2].encode())
            if p.ready(20) is not True:
                return False
        is_it = lambda l: l.startswith(s[1][:-1]) if s[1].endswith("*") and len(s[1]) > 1 else l == s[1]
        items = listed_items(p.screen)
        at = [i for i, l in enumerate(items) if is_it(l[2:])]
        if not at:
            return False
        for _ in range(at[0] + (0 if s[2] else 1)):
            p.send(DOWN)
            if p.ready(20) is not True:
                return False
        items = listed_items(p.screen)
        if at[0] >= len(items) or not items[at[0]].startswith("❯ "):
            return False
        p.send(b"\r")
        return True


class Plan:
    """Makes the next command from what the databases hold."""

    def __init__(self, inp, r, scratch):
        self.inp, self.r, self.scratch, self.files, self.n = inp, r, scratch, [], 0
        self.names = r.sample(["a", "b", "My Db", "x" * 60, "é", "a/b", ".", "..", "meta", "%41", "a&b=c", "meta.sdb"], 5)

    def name(self, m):
        return self.r.choice(self.names + list(m))

    def key(self, m):
        r = self.r
        while True:
            k = text(self.inp.g.text()) if r.random() < .4 else r.choice(["k", "l", "key with spaces", " x ", "é", "a&b", "%", "日本"])
            if k and typeable(cps(k)) and len(k) < 100 and k != "JSON":
                return k

    def value(self, deep=3):
        r = self.r
        x = r.random()
        if deep and x < .14:
            return [8, [[cps(k), self.value(deep - 1)] for k in sorted({self.key({}) for _ in range(r.randint(1, 3))})]]
        if deep and x < .32:
            return [11, [self.value(deep - 1) for _ in range(r.randint(1, 4))]]
        if x < .38:
            return [6, [r.randint(1, 9999), r.randint(1, 12), r.randint(1, 28), r.randrange(24), r.randrange(60), r.randrange(60), r.choice([0, 1, 7, 250, 999]) * 10 ** 6]]
        if x < .44:
            return [15, list(struct.pack("<f", r.choice([1, -1]) * r.choice([r.randint(1, 9999), r.randrange(1 << 23, 1 << 24) | 1]) / 2 ** r.randrange(7)))]
        while True:
            v, w = r.choice(self.inp.values)
            if enterable(w) and exact_in_text(w):
                return w

    def old(self, m, answers):
        """the answers that name a database there is; None if there is none"""
        if not m:
            return None
        if len(m) == 1:
            return list(m)[0]
        n = self.r.choice(list(m))
        answers.append(("pick", n, n if self.r.random() < .2 and n.isalnum() else ""))
        return n

    def any(self, m, answers):
        r = self.r
        if r.random() < .6 and m:
            answers.append(("no",))
            return self.old(m, answers)
        answers.append(("yes",))
        if not m and r.random() < .3:
            answers[-1] = ("no",)
            return None
        while True:
            n = self.name(m)
            if not typeable(cps(n)):
                n = "plain"
            answers.append(("text", n))
            if n == "meta" or n == "":
                continue
            if n in m:
                if r.random() < .6:
                    answers.append(("yes",))
                    return n
                answers.append(("no",))
                continue
            return n

    def command(self, m):
        """m: {name: [[key, value] ...]}. Gives (record for TLC, arguments, answers)"""
        r = self.r
        ans, c = [], dict(op="", name=[], src=["bad"], jd=[], typed=False, between=[])
        few = len(m) < 2 and r.random() < .7
        op = c["op"] = r.choices(["create-new", "add-entry", "import-from-json"], [3, 4, 3])[0] if few else r.choices(["create-new", "add-entry", "view-all", "debug-view-all", "remove-entry", "update-entry", "export-to-json", "import-from-json", "remove-database"],
                                 [3, 8, 3, 1, 4, 4, 4, 4, 1.5])[0]
        args = [op]
        simple = lambda k: k and typeable(cps(k)) and len(k) < 150
        if op == "create-new":
            n = self.name(m)
            if n == "" or n.startswith("-"):
                n = "plain"
            c["name"] = cps(n)
            args.append(n)
            if n in m:
                ans.append((r.choice(["yes", "no"]),))
        elif op == "add-entry":
            n = self.any(m, ans)
            if n is not None:
                ks = [text(k) for k, _ in m.get(n, [])]
                k = r.choice(ks) if ks and r.random() < .3 else self.key(m)
                if not simple(k):
                    k = "k"
                ans += [("text", k), ("value", self.value()), (r.choice(["yes", "yes", "yes", "no"]),)]
        elif op in ("view-all", "debug-view-all", "remove-database"):
            self.old(m, ans)
        elif op in ("remove-entry", "update-entry"):
            n = self.old(m, ans)
            if n is not None and m[n]:
                ks = [text(k) for k, _ in m[n] if simple(text(k))]
                if not ks:
                    return self.command(m)
                k = r.choice(ks)
                ans.append(("pick", k, k[:3] if k.isalnum() and r.random() < .3 else ""))
                if op == "update-entry":
                    ans.append(("value", self.value()))
                ans.append((r.choice(["yes", "yes", "yes", "no"]),))
        elif op == "export-to-json":
            n = self.old(m, ans)
            self.n += 1
            f = os.path.join(self.scratch, f"out{self.n}.json")
            if self.files and r.random() < .4:
                f = r.choice(self.files)[0]  # over what is there
            args += [f] + (["--add-souris-types"] if r.random() < .6 else [])
            c["typed"] = len(args) == 3
            c["from"] = n
            if n is not None:
                c["jd"] = texts_json([8, m[n]])
        else:
            x = r.random()
            if self.files and x < .6:
                f, src, jd = r.choice(self.files)
            elif x < .85:
                d = {}
                for _ in range(r.choice([0, 1, 2, 4])):
                    d[self.key(m)] = self.inp.g.jdoc(2)
                if "souris_type" in json.dumps(d):
                    d = {}
                f, src, jd = os.path.join(self.scratch, "doc.json"), ["doc", gen.jconv(d)], []
                with open(f, "w") as h:
                    json.dump(d, h, ensure_ascii=r.random() < .5, indent=r.choice([None, 2]))
            else:
                f, src, jd = os.path.join(self.scratch, "bad.json"), ["bad"], []
                with open(f, "wb") as h:
                    h.write(r.choice([b"", b"{", b'{"a": 1', b"{'a': 1}", b'{"a": nan}', b"\xff\xfe{}", b'{"a":1}}']))
                if r.random() < .3:
                    f += ".not"
            c["src"], c["jd"] = src, jd
            args.append(f)
            if src != ["bad"]:
                self.any(m, ans)
        if ans and (ans[-1][0] in ("yes", "no") or op in ("remove-database", "import-from-json")) and r.random() < .35:
            picked = [a[1] for a in ans if a[0] == "pick"]
            c["between"] = [self.other(m, picked) for _ in range(r.choice([1, 1, 2]))]
        return c, args, ans

    def other(self, m, picked):
        """what another client asks for meanwhile"""
        r = self.r
        db = r.choice(list(m)) if m and r.random() < .8 else r.choice(["a", "b", "of others"])
        db = r.choice([x for x in picked if x in m] or [db]) if r.random() < .6 else db
        ks = [text(k) for k, _ in m.get(db, [])]
        key = r.choice(ks) if ks and r.random() < .5 else r.choice(["k", "of others"])
        op = r.choices(["add_kv", "put_db", "rm_kv", "rm_db", "clear_db"], [8, 2, 4, 1, 1])[0]
        val, body = [1, cps("others")], [[cps("of others"), [1, cps("!")]]]
        if op == "clear_db":
            return dict(op="put_db" if db not in m else "clear", db=cps(db), key=[], val=[], body=[])
        return dict(op=op, db=cps(db), key=cps(key), val=val if op == "add_kv" else [], body=body if op == "put_db" else [])


def states_of(daemon, conf):
    out = {}
    raw = daemon.content()
    for (n, b), o in zip(raw, conf.ask_all([{"op": "sdec", "b": list(b or b"")} for _, b in raw])):
        out[n] = o["v"] if o["r"] == "ok" else [[[63], [9, 0]]]
    return out


class Conf(Runner):
    def ask_all(self, qs):
        return [self.ask(q) for q in qs]


def listed_state(m):
    return [[cps(n), e] for n, e in sorted(m.items())]


def others(d, conf, q):
    """what another client asks of the daemon"""
    db, key = realdaemon.enc(text(q["db"])), realdaemon.enc(text(q["key"]))
    if q["op"] == "add_kv":
        b = bytes(conf.ask({"op": "value", "v": q["val"], "dicts": [None]})["encs"][0]["enc"])
        d.ask("PUT", f"/v1/add_kv?db_name={db}&key={key}&create_new_database=true&overwrite_key=true", b)
    elif q["op"] == "put_db":
        d.ask("PUT", f"/v1/add_db_with_content?db_name={db}&overwrite_existing=true", bytes(conf.ask({"op": "store", "v": q["body"]})["enc"]))
    elif q["op"] == "rm_kv":
        d.ask("POST", f"/v1/rm_kv?db_name={db}&key={key}", b"")
    else:
        d.ask("POST", f"/v1/{'clear_db' if q['op'] == 'clear' else q['op']}?db_name={db}", b"")


def attempt(s, d, conf, spell, scratch, c, args, ans, cut, m):
    """one run of the tool: the record of it, the databases afterwards, whether it wrote its file"""
    typist = Typist(random.Random(spell), scratch)
    steps, told = [], []
    for a in ans:
        if a[0] == "value":
            steps.append(typist.value(a[1]))
            told.append(["value", a[1]])
        elif a[0] in ("yes", "no"):
            steps.append([getattr(typist, a[0])()])
            told.append([a[0]])
        elif a[0] == "text":
            steps.append([("text", a[1])])
            told.append(["text", cps(a[1])])
        else:
            steps.append([a])
            told.append(["pick", cps(a[1])])
    path = args[1] if c["op"] == "export-to-json" else None
    had = path and os.path.exists(path)
    if had:
        os.utime(path, (1, 1))
    code, used, screen = s.run(args, steps, cut, lambda: [others(d, conf, q) for q in c["between"]])
    now = states_of(d, conf)
    shown = []
    if c["op"] == "view-all":
        at = [i for i, l in enumerate(screen) if l.startswith("╭")]
        shown = cps("\n".join(screen[at[0]:]).rstrip("\n ")) if at else []
    screen = [l[:300] for l in screen[-20:]]
    file = []
    if path and os.path.exists(path) and (not had or os.stat(path).st_mtime != 1):
        t = open(path, "rb").read()
        try:
            file = [gen.jconv(json.loads(t))]
        except ValueError:
            file = [[4, cps("no JSON: " + t[:200].decode("utf-8", "replace"))]]
    return dict({k: v for k, v in c.items() if k != "from"}, before=listed_state(m), after=listed_state(now), ans=told, used=used, code=code, cut=cut, file=file, shown=shown, args=args, screen=screen), now, bool(file)


def again(inp, mouse, o):
    """the same run once more, by itself"""
    scratch = tempfile.mkdtemp(prefix="souris-mouse-")
    conf = Conf(inp.conf)
    try:
        os.makedirs(os.path.join(scratch, "base"))
        d = realdaemon.Daemon(inp.daemon, os.path.join(scratch, "base"), scratch)
        try:
            for n, e in o["before"]:
                b = conf.ask({"op": "store", "v": e})
                d.ask("PUT", "/v1/add_db_with_content?overwrite_existing=true&db_name=" + realdaemon.enc(text(n)), bytes(b["enc"]))
            c = {k: v for k, v in o.items() if k not in ("before", "after", "ans", "used", "code", "cut", "file", "shown", "args", "screen", "again")}
            x = o["again"]
            args = list(x["args"])
            if c["op"] in ("export-to-json", "import-from-json"):
                args[1] = os.path.join(scratch, os.path.basename(args[1]))
                if x["source"] is not None:  # what was there before
                    with open(args[1], "wb") as h:
                        h.write(x["source"])
            s = Session(mouse, d, scratch, "127.0.0.1")
            r, _, _ = attempt(s, d, conf, x["spell"], scratch, c, args, x["ans"], x["cut"], states_of(d, conf))
            return r
        finally:
            d.kill()
    finally:
        conf.stop()
        shutil.rmtree(scratch, ignore_errors=True)


def session(inp, mouse, i, length, out):
    r = random.Random(f"{SEED}-mouse-{i}-{inp.round}")
    mine = Inputs.__new__(Inputs)
    mine.__dict__.update(inp.__dict__)
    mine.g = gen.Gen(f"{SEED}-{i}-{inp.round}")
    mine.r = r
    scratch = tempfile.mkdtemp(prefix="souris-mouse-")
    conf = Conf(inp.conf)
    try:
        os.makedirs(os.path.join(scratch, "base"))
        d = realdaemon.Daemon(inp.daemon, os.path.join(scratch, "base"), scratch)
        if not d.up:
            raise ToolError("the daemon does not start")
        try:
            s = Session(mouse, d, scratch, r.choice(["127.0.0.1", "localhost"]))
            plan = Plan(mine, r, scratch)
            m = states_of(d, conf)
            for _ in range(length):
                c, args, ans = plan.command(m)
                cut = r.random() < .08 and len(ans) > 0
                if cut:
                    ans, c["between"] = ans[:r.randrange(len(ans))], []
                source = None
                if c["op"] in ("import-from-json", "export-to-json") and os.path.exists(args[1]):
                    source = open(args[1], "rb").read()
                spell = r.getrandbits(40)
                o, now, wrote = attempt(s, d, conf, spell, scratch, c, args, ans, cut, m)
                o["again"] = dict(args=args, ans=ans, cut=cut, source=source, spell=spell)
                if wrote:
                    plan.files = [x for x in plan.files if x[0] != args[1]] + [(args[1], ["export", c["typed"], m.get(c["from"], [])], c["jd"])]
                out.append(o)
                m = now
        finally:
            d.kill()
    finally:
        conf.stop()
        shutil.rmtree(scratch, ignore_errors=True)


def run(prop):
    t0 = time.time()
    build_interpose()
    inp = Inputs(SEED * 1000 + 202)
    inp.daemon, mouse = realdaemon.build_real(), realdaemon.build_real("mouse")
    end = t0 + (500 if THOROUGH else 0)
    found, seen, total, st, kinds, samples, passing, meddled = [], set(), 0, [0, 0], {}, [], 0, 0
    inp.round = 0
    while True:
        out, errs = [], []
        n = 160

        def share(k):
            try:
                for i in range(k, n, CPUS):
                    session(inp, mouse, i, 14, out)
            except Exception as e:
                errs.append(e)
        ts = [threading.Thread(target=share, args=(k,)) for k in range(CPUS)]
        [t.start() for t in ts]
        [t.join() for t in ts]
        if errs:
            raise errs[0]
        plain = lambda cs: [{k: v for k, v in c.items() if k not in ("args", "screen", "again")} for c in cs]
        cases = plain(out)
        bad, s = judge(prop, "MouseCases", cases, timeout=600)
        if bad:
            # what happens once more when nothing else goes on is the tool's doing, not the terminal's
            tries = [(i, again(inp, mouse, out[i])) for i in bad[:40] for _ in range(3)]
            worse, _ = judge(prop, "MouseCases", plain([o for _, o in tries]), timeout=600, part="-again")
            sure = {tries[k][0] for k in worse}
            passing += len(bad[:40]) - len(sure)
            bad = sorted(sure)
        st = [st[0] + s[0], st[1] + s[1]]
        for c in cases:
            kinds[c["op"]] = kinds.get(c["op"], 0) + 1
            seen.add(hash(json.dumps([c["op"], c["name"], c["ans"], c["before"], c["src"], c["between"]])))
            meddled += bool(c["between"])
        samples = samples or [{k: v for k, v in o.items() if k != "again"} for o in out[:2]]
        found += [{k: v for k, v in out[i].items() if k != "again"} for i in bad][:12 - len(found)]
        total += len(cases)
        inp.round += 1
        if found or time.time() > end:
            break
    for i, f in enumerate(found):
        violation(prop, replay_file(prop, f"violation-{i}.json", f))
    sys.stderr.write(f"{prop}: {total} runs, {time.time() - t0:.0f} s, found {len(found)}\n")
    evidence(prop, "exploration", dict(evaluations=total, distinct_nontrivial=len(seen), rule=RULE, by_command=kinds, others_meanwhile=meddled, rejected_once_only=passing, tlc_states=st[1], samples=samples), t0, len(found),
             ["the terminal stand-in shows what a terminal would", "the interposer only redirects the port", "TLC evaluates the specification correctly"])
    return 1 if found else 0
