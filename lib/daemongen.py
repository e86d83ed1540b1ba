"""Scenarios for the daemon: which clients ask for what, when time passes, what fails, when it is stopped."""
import random

DBS = ["a", "b", "c"]
KEYS = ["k", "l", "m"]
ERRS = [28, 13, 5]
ADV = {"act": "adv", "ms": 10000}
IDLE = {"act": "idle"}


class G:
    def __init__(self, seed):
        self.r = random.Random(seed)
        self.n = 0

    def val(self):
        self.n += 1
        return self.n

    def body(self, keys):
        return [[k, self.val()] for k in sorted(self.r.sample(keys, self.r.randint(0, min(3, len(keys)))))]

    def op(self, weights, dbs, keys):
        r = self.r
        op = r.choices(list(weights), list(weights.values()))[0]
        q = {"op": op}
        if op not in ("names", "health"):
            q["db"] = r.choice(dbs)
        if op in ("add_kv", "rm_kv", "get_kv"):
            q["key"] = r.choice(keys)
        if op == "add_kv":
            q.update(val=self.val(), create=r.random() < .7, over=r.random() < .6)
        if op in ("add_db", "put_db"):
            q["over"] = r.random() < .5
        if op == "put_db":
            q["body"] = self.body(keys)
        return q

    def ops(self, n, weights, dbs, keys):
        return [self.op(weights, dbs, keys) for _ in range(n)]

    def plan(self, clients, **x):
        r = self.r
        p = dict(seed=r.getrandbits(60), sticky=r.choice([0, 0, 50, 80, 95]), time=0, eager=r.random() < .15, clients=clients)
        if r.random() < .4:
            p["hold"] = sorted(r.randrange(90) for _ in range(r.choice([1, 1, 2, 3])))
        elif r.random() < .4:
            p["slow"] = r.choice([30, 100])
        p.update(x)
        return p


EVEN = dict(names=1, get_db=2, add_db=2, put_db=2, rm_db=1, clear=1, add_kv=4, rm_kv=2, get_kv=2)
CHANGE = dict(add_db=2, put_db=2, rm_db=1, clear=1, add_kv=6, rm_kv=2)
FETCH = dict(get_db=7, add_db=1, put_db=2, rm_db=1, clear=1, add_kv=3, rm_kv=2)
REMOVE = dict(add_db=2, put_db=2, rm_db=5, add_kv=4, clear=1)


def concurrent(g, weights=EVEN):
    r = g.r
    dbs, keys = DBS[:r.choice([1, 1, 2])], KEYS[:r.choice([1, 2])]
    clients = [g.ops(r.randint(1, 4), weights, dbs, keys) for _ in range(r.choice([2, 2, 3, 3, 4]))]
    if r.random() < .3:
        for c in clients:
            for s in c:
                if r.random() < .3:
                    s["leave"] = True
    if r.random() < .3:
        clients.append([ADV, {"act": "busy"}])
    return [g.plan(clients, rec="up")]


KEYS2 = ["k", "l", "m", "", "K", "k ", "k/../l", "\u043a\u043b\u044e\u0447", "a=b&c", "%6b", "\x00", "x" * 300, "\U0001f600"]


def sequential(g):
    """one client, one request after another, with saves here and there"""
    r = g.r
    dbs, keys = DBS[:r.choice([1, 2, 3])], r.choice([KEYS, KEYS2, r.sample(KEYS2, 3)])
    s = []
    for _ in range(r.randint(1, 5)):
        s += g.ops(r.randint(1, 10), r.choice([EVEN, FETCH, REMOVE]), dbs, keys)
        if r.random() < .5:
            s += [ADV] + ([IDLE] if r.random() < .7 else [])
    return [g.plan([s], rec="up")]


def fetches(g):
    r = g.r
    dbs, keys = DBS[:r.choice([1, 1, 2])], KEYS[:r.choice([1, 2])]
    clients = [g.ops(r.randint(2, 4), FETCH, dbs, keys)]
    for _ in range(r.choice([1, 1, 2])):
        clients.append(g.ops(r.randint(1, 3), r.choice([FETCH, dict(get_db=1)]), dbs, keys))
    for c in clients:
        c.append({"op": "get_db", "db": r.choice(dbs)})
        for s in c:
            if r.random() < .07:
                s["leave"] = True
    return [g.plan(clients, rec="up")]


def periods(g, weights, dbs=None, n=3, per=4, clients=2, idle=.8, small=False):
    """clients ask, and every now and then enough time passes for a save"""
    r = g.r
    dbs = dbs or DBS[:r.choice([1, 2, 3])]
    out = []
    for c in range(clients):
        s = []
        for _ in range(r.randint(1, n)):
            s += g.ops(r.randint(1, per), weights, dbs, KEYS)
            if c == 0 or r.random() < .3:
                s.append({"act": "adv", "ms": r.choice([10000, 10000, 10000, 3000, 7000])})
                if r.random() < idle:
                    s.append(IDLE)
                elif r.random() < .7:
                    s.append({"act": "busy"})
        out.append(s)
    if r.random() < .7:
        out[0] += [{"act": "done"}, ADV, IDLE]
    return out


def restarts(g):
    r = g.r
    lives = []
    for n in range(r.choice([1, 2, 2, 3])):
        s = []
        if r.random() < .85:
            s += g.ops(r.randint(1, 6), CHANGE, DBS, KEYS)
        if r.random() < .4:
            s += [ADV, IDLE] + g.ops(r.randint(0, 3), CHANGE, DBS, KEYS)
        s += [{"act": "done"}, {"act": "signal", "sig": r.choice(["TERM", "INT"])}]
        lives.append(g.plan([s], until_exit=True, again=True))
    return lives


def crashes(g):
    r = g.r
    lives = []
    for n in range(r.choice([1, 1, 2])):
        c = periods(g, CHANGE, n=3, per=3, clients=r.choice([1, 1, 2]))
        lives.append(g.plan(c, again=r.random() < .3, crash=r.getrandbits(20)))
    return lives


def remade(g):
    """removed and made again while a save goes on, by several clients"""
    r = g.r
    dbs = DBS[:r.choice([1, 2])]
    add = lambda d: dict(op="add_kv", db=d, key=r.choice(KEYS), val=g.val(), create=True, over=True)
    s = [add(d) for d in dbs] + ([ADV, IDLE] if r.random() < .9 else []) + [add(d) for d in dbs if r.random() < .3] + [ADV]
    d = r.choice(dbs)
    a = [{"act": "after"}, {"op": "rm_db", "db": d}] + [add(d)] * (r.random() < .2)
    b = [{"act": "after"}] + [add(d) for _ in range(r.choice([1, 1, 2]))]
    if r.random() < .2:
        b.append({"op": "rm_db", "db": d})
    if r.random() < .5:
        b += [ADV, ADV]
    return [g.plan([s, a, b + [IDLE]], again=r.random() < .3)]


def removals(g):
    r = g.r
    if r.random() < .4:
        return remade(g)
    lives = []
    for n in range(r.choice([1, 1, 2])):
        dbs = DBS[:r.choice([1, 2])]
        c = periods(g, REMOVE, dbs=dbs, n=3, per=3, clients=r.choice([1, 2, 2]), idle=.5)
        if r.random() < .3:
            s = c[-1]
            s += [{"act": "signal", "sig": "TERM"}]
            lives.append(g.plan(c, again=r.random() < .5, until_exit=True))
        else:
            c[0] += [{"act": "done"}, ADV, IDLE]
            lives.append(g.plan(c, again=r.random() < .5, crash=r.getrandbits(20)))
    return lives


def stops(g):
    r = g.r
    dbs = DBS[:r.choice([1, 2, 3])]
    n = r.choice([1, 2, 3])
    c = [g.ops(r.randint(1, 4), CHANGE, dbs, KEYS) for _ in range(n)]
    if r.random() < .4:
        c[0] = [ADV, {"act": "busy"}] + c[0] if r.random() < .5 else c[0] + [ADV, IDLE] + g.ops(2, CHANGE, dbs, KEYS)
    c.append([{"act": "reqs", "n": r.randint(1, n)}, {"act": "signal", "sig": r.choice(["TERM", "INT"])}])
    return [g.plan(c, until_exit=True)]


def single(g):
    """one change, or two, to what has been saved; then a stop, or time for the next save"""
    r = g.r
    dbs = DBS[:r.choice([1, 2])]
    s = [dict(op="add_kv", db=d, key=k, val=g.val(), create=True, over=True) for d in dbs for k in KEYS if r.random() < .8]
    if r.random() < .3:
        s += [dict(op="add_db", db=DBS[2], over=True)]
    s += [ADV, IDLE]
    for _ in range(r.choice([1, 1, 2])):
        ops = r.choice(["add_db", "put_db", "clear", "add_kv", "rm_kv", "rm_kv", "rm_db"])
        s += g.ops(r.choice([1, 1, 1, 2]), {ops: 1}, dbs, KEYS) + [ADV, IDLE]
    if r.random() < .6:
        s[-2:] = [{"act": "signal", "sig": r.choice(["TERM", "INT"])}]
        return [g.plan([s], until_exit=True)]
    return [g.plan([s])]


def faulty(g):
    """some files cannot be written for a while"""
    r = g.r
    dbs = DBS[:r.choice([2, 3])]
    s = g.ops(r.randint(1, 4), CHANGE, dbs, KEYS)
    if r.random() < .8:
        s += [ADV, IDLE]
    for _ in range(r.choice([1, 1, 2])):
        bad = r.sample(dbs + ["meta"], r.choice([1, 1, 1, 2]))
        f = [{"act": "fault", "db": d, "op": r.choice(["*", "*", "write", "create", "rename", "sync"]), "err": r.choice(ERRS)} for d in bad]
        if r.random() < .5:
            s += f + g.ops(r.randint(1, 4), CHANGE, dbs, KEYS) + [ADV, IDLE]
        else:
            s += g.ops(r.randint(1, 4), CHANGE, dbs, KEYS) + f + [ADV, IDLE]
        if r.random() < .4:
            s += g.ops(r.randint(1, 3), CHANGE, dbs, KEYS) + [ADV, IDLE]
        s += [{"act": "heal"}]
        if r.random() < .8:
            s += g.ops(r.randint(0, 2), CHANGE, dbs, KEYS)
        s += [ADV, IDLE]
    clients = [s]
    if r.random() < .4:
        clients.append(g.ops(r.randint(1, 4), CHANGE, dbs, KEYS))
    if r.random() < .3:
        s += [{"act": "signal", "sig": "TERM"}]
        return [g.plan(clients, until_exit=True, again=True)]
    return [g.plan(clients)]


def orphaned(g):
    """a file that an interrupted save left behind, and its database made again while its files fail"""
    r = g.r
    dbs = DBS[:r.choice([1, 2])]
    add = lambda d: dict(op="add_kv", db=d, key=r.choice(KEYS), val=g.val(), create=True, over=True)
    one = [add(d) for d in dbs] + [ADV, IDLE]
    lives = [g.plan([one], crash=r.randrange(3, 14))]
    s = [{"act": "fault", "db": d, "op": r.choice(["*", "*", "write", "create", "rename", "sync"]), "err": r.choice(ERRS)} for d in dbs if r.random() < .8]
    s += [add(d) for d in dbs] + [ADV, IDLE]
    if r.random() < .3:
        s += [{"act": "heal"}, ADV, IDLE]
    lives.append(g.plan([s]))
    return lives


def blinded(g):
    """some databases cannot be read at a start"""
    r = g.r
    dbs = DBS[:r.choice([2, 3])]
    lives = []
    for n in range(r.choice([2, 3, 3, 4])):
        blind = [] if n == 0 else r.sample(dbs, r.choice([0, 1, 1, 1, 2]))
        if n and r.random() < .07:
            blind = ["meta"]
        w = r.choice([CHANGE, CHANGE, dict(get_db=3, names=1, get_kv=1, add_kv=1, rm_db=1)])
        s = g.ops(r.randint(0, 4) if n else r.randint(2, 6), w, dbs, KEYS)
        if n == 0:
            s = [dict(op="add_kv", db=d, key=r.choice(KEYS), val=g.val(), create=True, over=True) for d in dbs] + s
        if blind and r.random() < .5:
            # leave alone what cannot be read
            s = [q for q in s if q.get("db") not in blind]
        if r.random() < .6:
            s += [ADV, IDLE] + g.ops(r.randint(0, 2), w, [d for d in dbs if d not in blind] or dbs, KEYS)
        x = dict(blind=[{"db": d, "how": r.choice(["look", "read", "hide", "empty", "short", "junk"]), "err": r.choice([13, 5, 24, 40])} for d in blind]) if blind else {}
        if r.random() < .6:
            s += [{"act": "done"}, {"act": "signal", "sig": r.choice(["TERM", "INT"])}]
            lives.append(g.plan([s], until_exit=True, **x))
        else:
            lives.append(g.plan([s], crash=r.getrandbits(20) if r.random() < .5 else -1, **x))
            if lives[-1]["crash"] < 0:
                del lives[-1]["crash"]
    return lives


def timely(g):
    r = g.r
    dbs = DBS[:2]
    s = []
    for _ in range(r.randint(2, 6)):
        s += g.ops(r.randint(0, 2), CHANGE, dbs, KEYS)
        s += [{"act": "adv", "ms": m} for m in r.choice([[10000], [11000], [4000, 6000], [3000, 3000, 4000], [1000] * 11, [2000, 9000], [30000]])]
        s += [IDLE]
    if r.random() < .4:
        k = r.randrange(len(s))
        s[k:k] = [{"act": "fault", "db": r.choice(dbs + ["meta"]), "op": "*", "err": 28}]
        k = r.randrange(k, len(s)) + 1
        s[k:k] = [{"act": "heal"}]
        s += [ADV, IDLE]
    return [g.plan([s])]


def chain(g):
    """one client changes one database after the other while they are saved"""
    r = g.r
    dbs = DBS[:r.choice([2, 3])]
    add = lambda d: dict(op="add_kv", db=d, key=r.choice(KEYS), val=g.val(), create=True, over=True)
    s = [add(d) for d in dbs if r.random() < .9] + ([ADV, IDLE] if r.random() < .5 else []) + [ADV]
    order = r.sample(dbs, len(dbs)) * 3
    c = [{"act": "busy"}] + [add(d) if r.random() < .85 else dict(op=r.choice(["clear", "add_db"]), db=d, over=True) for d in order[:r.randint(3, 6)]]
    return [g.plan([s + [IDLE], c])]


def queue(g):
    """several clients wait to change one database each while they are saved, one of them a large one"""
    r = g.r
    dbs = DBS[:r.choice([2, 2, 3])]
    add = lambda d: dict(op="add_kv", db=d, key=r.choice(KEYS), val=g.val(), create=True, over=True)
    large = r.choice(dbs)
    s = [dict(op="put_db", db=large, over=True, body=[["p%03d" % i, g.val()] for i in range(r.choice([3, 20, 60, 110, 150]))])] + [add(d) for d in dbs if d != large]
    s += ([ADV, IDLE] + [add(d) for d in dbs if r.random() < .8] if r.random() < .4 else []) + [ADV]
    order = r.sample([d for d in dbs if d != large], len(dbs) - 1) + [large]
    if r.random() < .25:
        r.shuffle(order)
    return [g.plan([s + [IDLE]] + [[{"act": "busy"}, add(d)] + ([add(r.choice(dbs))] if r.random() < .3 else []) for d in order])]


def rows(g):
    """clients that change one database after the other, in a row, while many are saved, some of them large"""
    r = g.r
    dbs = ["d%d" % i for i in range(r.choice([3, 4, 5]))]
    add = lambda d: dict(op="add_kv", db=d, key=r.choice(KEYS), val=g.val(), create=True, over=True)
    n = r.choice([3, 20, 60, 110, 150])
    large = r.sample(dbs, r.randrange(1, len(dbs)))
    s = [dict(op="put_db", db=d, over=True, body=[["p%03d" % i, g.val()] for i in range(n)]) if d in large else add(d) for d in dbs]
    s += ([ADV, IDLE] + [add(d) for d in dbs if r.random() < .8] if r.random() < .4 else []) + [ADV, IDLE]
    cs = []
    for _ in range(r.choice([1, 2])):
        # small ones, then large ones, as a rule
        order = r.sample([d for d in dbs if d not in large], len(dbs) - len(large)) + r.sample(large, len(large))
        if r.random() < .3:
            r.shuffle(order)
        cs.append([{"act": "busy"}] + [add(d) for d in order])
    return [g.plan([s] + cs)]


def moments(g):
    r = g.r
    x = r.random()
    if x < .35:
        return chain(g)
    if x < .55:
        return rows(g)
    if x < .7:
        return queue(g)
    dbs = DBS[:r.choice([2, 3])]
    s = g.ops(r.randint(1, 3), CHANGE, dbs, KEYS) + [ADV]
    c = [s]
    for _ in range(r.choice([1, 1, 2])):
        w = []
        for _ in range(r.randint(2, 3)):
            q = g.op(dict(add_kv=5, put_db=1, add_db=1, clear=1), dbs, KEYS)
            if q["op"] == "add_kv":
                q.update(create=True, over=True)
            w.append(q)
        c.append(([{"act": "busy"}] if r.random() < .8 else []) + w)
    s += [IDLE]
    if r.random() < .5:
        s += [ADV, IDLE]
    return [g.plan(c)]


# ------------------------------------------------------------ the same under other names, and with more in it
ALIKE = [["A", "a", "b"], ["Main", "main", "MAIN"], ["x.y", "x.z", "x"], ["a", " a", "a "], ["a.sdb", "a", "a.sdb.tmp"], ["meta.", "Meta", "meta2"], ["x" * 200, "x" * 199, "x" * 198 + "y"], ["a b", "a%20b", "a+b"], ["0", "00", "1"]]
ALIKE_KEYS = [["k", "K", "k "], ["", "k", "kk"], ["k" * 300, "k" * 299, "k"], ["k.a", "k.b", "k"]]


def disguise(g, lives):
    """other names for the same databases and keys, and sometimes a database with many entries"""
    r = g.r
    faults = any("blind" in l or s.get("act") == "fault" for l in lives for c in l["clients"] for s in c)
    # (what is to fail is found by a part of its path)
    table = dict(zip(DBS, r.choice([a for a in ALIKE if not faults or not any(" " in x or ".sdb" in x for x in a)]))) if r.random() < .3 else {}
    ktable = dict(zip(KEYS, r.choice(ALIKE_KEYS))) if r.random() < .2 else {}
    if r.random() < .25:
        n = r.choice([8, 20, 55, 70, 150])
        lives[0]["clients"][0] = [dict(op="put_db", db=r.choice(DBS[:2]), over=r.random() < .5, body=[["p%03d" % i, g.val()] for i in range(n)])] + lives[0]["clients"][0]
    for l in lives:
        for b in l.get("blind", []):
            b["db"] = table.get(b["db"], b["db"])
        # (steps may be one object, used twice)
        l["clients"] = [[{k: table.get(v, v) if k == "db" else ktable.get(v, v) if k == "key" else sorted([ktable.get(x, x), y] for x, y in v) if k == "body" else v for k, v in s.items()} for s in c] for c in l["clients"]]
    return lives


# ------------------------------------------------------------ names
PLAIN = ["a", "zz", "Some Name", "db-1_2", "x" * 200]
ODD = ["", ".", "..", "...", " ", "a b", "a%2Fb", "%2e%2e", "..%2f..%2fx", "..\\..\\x", "a\\b", "a&b=c", "a+b", "a#b?c", "meta.sdb", "meta ", " meta", "META", "Meta", "meta.", "meta.meta",
       "a.sdb", "a.sdb.tmp", "meta.sdb.tmp", ".sdb", "-rf", "~", "*", "$HOME", "\"q\"", "'", "a\nb", "\r\n", "\t", "\x01", "\x7f", "CON", "x" * 240, "x" * 246, "y" * 247, "null", "true", "[]", ";", "a:b", "|"]
WRONG = ["meta", "/", "a/b", "../x", "../../x", "../../../x", "/tmp/x", "./a", "a/", "/etc/passwd", "a/../a", "..//..", "\x00", "a\x00", "a\x00b", "é", "日本", "a\u0301", "\u202e", "ｍｅｔａ", "x\x80", "\ufeff",
         "x" * 252, "x" * 255, "x" * 256, "y" * 300, "x" * 5000, "meta/../a", "../base/a", "../base/meta"]


def names(g, table=None):
    """odd and wrong names in every kind of request, beside plain ones"""
    r = g.r
    pool = [r.choice(ODD), r.choice(WRONG), r.choice(r.choice([PLAIN, ODD, WRONG]))]
    if r.random() < .3:
        pool[0] = "meta"
    w = dict(get_db=2, add_db=4, put_db=4, rm_db=2, clear=1, add_kv=5, rm_kv=1, get_kv=1, names=1)
    lives = []
    keys = ["k", r.choice(["../../k", "", "meta", "/", "\x00", "é"])]
    for n in range(2):
        s = []
        for d in pool + ["plain"]:
            if n == 0 or r.random() < .5:
                s.append(g.op(dict(add_db=1, put_db=1, add_kv=1), [d], keys))
                if s[-1]["op"] == "add_kv":
                    s[-1]["create"] = True
        s += g.ops(r.randint(2, 7), w, pool + ["plain"], keys)
        r.shuffle(s)
        if r.random() < .5:
            s += [ADV, IDLE] + g.ops(r.randint(1, 4), w, pool + ["plain"], keys)
        s += [{"op": "names"}, {"act": "done"}, {"act": "signal", "sig": "TERM"}]
        lives.append(g.plan([s], until_exit=True))
    return lives


# ------------------------------------------------------------ requests on the wire
ROUTES = {"/healthcheck": ("GET", "health", []), "/v1/get_all_db_names": ("GET", "names", []), "/v1/get_db": ("GET", "get_db", ["db_name"]),
          "/v1/add_db": ("POST", "add_db", ["db_name", "overwrite_existing"]), "/v1/add_db_with_content": ("PUT", "put_db", ["db_name", "overwrite_existing"]),
          "/v1/rm_db": ("POST", "rm_db", ["db_name"]), "/v1/clear_db": ("POST", "clear", ["db_name"]),
          "/v1/add_kv": ("PUT", "add_kv", ["db_name", "key", "create_new_database", "overwrite_key"]), "/v1/rm_kv": ("POST", "rm_kv", ["db_name", "key"]),
          "/v1/get_value": ("GET", "get_kv", ["db_name", "key"])}
UNKNOWN = ["/", "/v1", "/v1/", "/v1/get", "/v1/get_dbs", "/v2/get_db", "/v1/get_db/", "/V1/get_db", "/v1/add_kv/x", "/get_db", "/healthcheck/", "/health", "/v1/healthcheck", "/v1//get_db", "/v1/rm_db/a"]


def raw(g, bodies):
    """bodies: for the kinds 'value' and 'store', lists of (bytes, what it holds)"""
    r = g.r
    path = r.choice(list(ROUTES)) if r.random() < .9 else r.choice(UNKNOWN)
    m, op, ps = ROUTES.get(path, ("GET", "names", ["db_name"]))
    x = r.random()
    if x < .12:
        m = r.choice([k for k in ("GET", "POST", "PUT", "DELETE", "PATCH", "OPTIONS") if k != m])
    q = []
    for p in ps:
        if p == "db_name":
            v = r.choice(["a", "a", "b", "", "meta"])
        elif p == "key":
            v = r.choice(["k", "l", "", "ключ"])
        else:
            v = r.choice(["true", "false"]) if r.random() < .85 else r.choice(["", "True", "TRUE", "1", "0", "yes", "tru", "true ", " false", "nope", "null", "falsefalse"])
        q.append([p, v])
    y = r.random()
    if q and y < .15:
        q.pop(r.randrange(len(q)))
    elif q and y < .22:
        q.append(list(r.choice(q)))
    elif q and y < .28:
        k = r.randrange(len(q))
        q[k][0] = r.choice([q[k][0].upper(), q[k][0] + "_", "x" + q[k][0], q[k][0][:-1]])
    elif y < .36:
        q.append([r.choice(["extra", "key2", "overwrite"]), "x"])
    r.shuffle(q)
    body, val, held = [], 0, []
    if op in ("add_kv", "put_db"):
        kind = "value" if op == "add_kv" else "store"
        z = r.random()
        body, what = r.choice(bodies[kind])
        body = list(body)
        if z < .12:
            body = body[:r.randrange(len(body))]
        elif z < .22:
            body = list(r.choice(bodies["bad " + kind]))
        elif kind == "value":
            val = what
        else:
            held = what
    elif r.random() < .1:
        body = [1, 2, 3]

    def enc(s):
        return "".join(c if c.isascii() and (c.isalnum() or c in "_-") else "".join("%%%02X" % b for b in c.encode()) for c in s)

    query = "&".join(f"{enc(a)}={enc(v)}" for a, v in q)
    return {"op": "raw", "as": op, "val": val, "body": held,
            "raw": {"m": m, "path": path, "params": [[a, v, [ord(c) for c in v]] for a, v in q], "query": "?" + query if query or r.random() < .5 else "", "body": body}}


def malformed(g, bodies):
    r = g.r
    s = g.ops(r.randint(0, 2), dict(add_kv=3, put_db=1), ["a", "b"], ["k", "l"])
    for _ in range(r.randint(4, 10)):
        s.append(raw(g, bodies))
        if r.random() < .3:
            s.append({"op": r.choice(["health", "names"])})
    s += [{"op": "health"}, {"op": "names"}, {"op": "get_db", "db": "a"}, {"op": "get_db", "db": "b"}]
    return [g.plan([s], rec="up")]


def asked(g, bodies):
    """whether it is there, and what makes no sense, while others are served and saves are under way"""
    r = g.r
    dbs, keys = DBS[:r.choice([1, 2])], KEYS[:2]
    clients = [g.ops(r.randint(2, 4), dict(CHANGE, names=1, get_db=2, health=1), dbs, keys) for _ in range(r.choice([1, 2]))]
    clients.append([{"op": "health"} for _ in range(r.randint(2, 6))])
    clients.append([r.choice([ADV, {"act": "busy"}, {"op": "health"}]) for _ in range(r.randint(1, 3))] + [ADV, {"act": "busy"}, {"op": "health"}, {"op": "health"}])
    if r.random() < .4:
        clients.append([raw(g, bodies) for _ in range(r.randint(1, 2))])
    return [g.plan(clients, rec="up")]


# ------------------------------------------------------------ small cases, with every order
def pairs(triple=False):
    """what may happen at once, for few requests; each with every order of its steps"""
    k = dict(db="a", key="k")
    ops = [dict(op="get_db", db="a"), dict(op="add_kv", val=7, create=True, over=True, **k), dict(op="add_kv", val=8, create=False, over=False, **k), dict(op="rm_kv", **k), dict(op="put_db", db="a", over=True, body=[["k", 9], ["l", 10]]),
           dict(op="put_db", db="a", over=False, body=[["l", 11]]), dict(op="rm_db", db="a"), dict(op="clear", db="a"), dict(op="add_db", db="a", over=False), dict(op="get_kv", **k), dict(op="names")]
    start = [[], [dict(op="add_kv", val=1, create=True, over=True, **k)], [dict(op="add_kv", val=1, create=True, over=True, **k), dict(op="get_db", db="a")]]
    end = [dict(op="get_db", db="a"), dict(op="names")]
    out = []
    for s in start:
        for i, x in enumerate(ops):
            for j in range(i, len(ops)):
                out.append((s, [[x], [dict(ops[j], val=17) if "val" in ops[j] else ops[j]]], end))
                if triple:
                    out.append((s, [[x, ops[0]], [ops[j]]], end))
                    out.append((s, [[x], [ops[j]], [ops[0]]], end))
    return out


# ------------------------------------------------------------ for the daemon as it is
def of_kinds(g, lives, values):
    """the same, with values of every kind"""
    for l in lives:
        for c in l["clients"]:
            for s in c:
                if s.get("op") == "add_kv" and g.r.random() < .9:
                    s["val"] = {"v": g.r.choice(values)}
                if s.get("op") == "put_db":
                    s["body"] = [[k, {"v": g.r.choice(values)} if g.r.random() < .9 else v] for k, v in s["body"]]
    return lives


def shorter(lives):
    """without most of the waiting"""
    for l in lives:
        for i, c in enumerate(l["clients"]):
            n, out = 0, []
            for s in c:
                if s.get("act") == "idle":
                    n += 1
                    if n > 1:
                        continue
                out.append(s)
            l["clients"][i] = out
    return lives


def bulky(g):
    """values, stores and answers of more than four megabytes (of one letter: what is written out is smaller)"""
    x = {"v": [1, [97] * 4500000]}
    return [g.plan([[dict(op="add_kv", db="a", key="k", val=x, create=True, over=True), dict(op="get_kv", db="a", key="k"), dict(op="get_db", db="a")]])]


def heavy(g):
    """a database whose file has more than two megabytes, and a restart"""
    x = {"v": [2, list(g.r.randbytes(2300000))]}
    return [g.plan([[dict(op="put_db", db="b", over=True, body=[["k", x], ["l", 1]]), {"act": "done"}, {"act": "signal", "sig": "TERM"}]], until_exit=True)]


def many(g):
    """more databases than anything keeps in memory on the side, most of them fetched, and a restart"""
    r = g.r
    n = 230
    names = ["d%d" % i for i in range(n)]
    s = [dict(op="put_db", db=d, over=True, body=[["k", g.val()]]) for d in names] + [dict(op="get_db", db=d) for d in names[:210]] + [{"op": "names"}]
    for _ in range(12):
        d = r.choice(names)
        s += [dict(op="add_kv", db=d, key="l", val=g.val(), create=True, over=True), dict(op="get_db", db=d)]
    s += [dict(op="rm_db", db=d) for d in r.sample(names, 3)] + [{"op": "names"}, {"act": "done"}, {"act": "signal", "sig": "TERM"}]
    return [g.plan([s], until_exit=True), g.plan([[{"op": "names"}, {"act": "done"}, {"act": "signal", "sig": "TERM"}]], until_exit=True)]


def slowly(g):
    """a stop while requests are being served: one whose body comes slowly, and others"""
    r = g.r
    dbs = DBS[:2]
    s = g.ops(r.randint(0, 3), CHANGE, dbs, KEYS)
    q = g.op(dict(put_db=1, add_kv=1), dbs, KEYS)
    if q["op"] == "add_kv":
        q.update(create=True)
    q["slow"] = r.choice(["TERM", "INT"])
    c = [s + [q]]
    if r.random() < .6:
        w = g.op(dict(put_db=1, add_kv=1), dbs, KEYS)
        if w["op"] == "add_kv":
            w.update(create=True)
        w["slow"] = "yes"
        c.append([{"act": "reqs", "n": 1}, w])
    return [g.plan(c, until_exit=True, again=r.random() < .3)]


def killed(g):
    """dies at some operation on its files"""
    lives = shorter(crashes(g))
    for l in lives:
        l["kill"] = g.r.randint(1, 30)
        l["half"] = g.r.random() < .5
    return lives
