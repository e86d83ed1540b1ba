"""Behaviours of spec/DaemonImpl.tla, made into scenarios: what its variants get wrong (spec/scripts.ndjson, made once from them), and others at random."""
import hashlib, json, os, random, sys
from concurrent.futures import ThreadPoolExecutor
from common import *

FILE = os.path.join(SPEC, "scripts.ndjson")
# a variant, how many requests and failures, how deep
VARIANTS = {
    "does not invalidate": (4, 0, 24), "invalidates before the lock": (4, 0, 24), "remembers after the lock": (4, 0, 26),
    "unlinks after the lock": (3, 0, 22), "does not unlink": (3, 0, 20), "gone if it cannot be unlinked": (3, 1, 20),
    "saves without the lock": (3, 0, 18), "writes in place": (2, 0, 14), "missing is empty": (3, 0, 20),
    "a failure ends the save": (3, 1, 18), "what failed is not listed": (3, 1, 22),
    "stops before all is answered": (3, 0, 16), "no last save": (3, 0, 16),
}
# which of them say something about which property
ABOUT = {
    "D01": ["does not invalidate", "gone if it cannot be unlinked"],
    "D02": ["does not invalidate", "invalidates before the lock", "remembers after the lock", "unlinks after the lock"],
    "D03": ["does not invalidate", "invalidates before the lock", "remembers after the lock"],
    "D05": ["no last save", "missing is empty", "stops before all is answered"],
    "D06": ["writes in place", "a failure ends the save", "what failed is not listed", "saves without the lock"],
    "D07": ["does not unlink", "unlinks after the lock", "missing is empty"],
    "D08": ["stops before all is answered", "no last save"],
    "D09": ["a failure ends the save", "what failed is not listed", "gone if it cannot be unlinked", "writes in place"],
    "D11": ["what failed is not listed", "a failure ends the save", "no last save"],
    "D12": ["saves without the lock"],
}
CFG = """SPECIFICATION SpecS
CONSTANTS
  Dbs = {{"a", "b"}}
  Clients = {{"0", "1"}}
  MaxOps = {ops}
  MaxFaults = {faults}
  MaxLives = 1
  Bug = "{bug}"
  Depth = {depth}
CHECK_DEADLOCK FALSE
{how}
"""


def stamp():
    h = hashlib.sha1()
    for m in ("Life", "DaemonImpl", "DaemonScript"):
        h.update(open(os.path.join(SPEC, m + ".tla"), "rb").read())
    return h.hexdigest()


def told(out):
    return sorted({m.encode().decode("unicode_escape") for m in re.findall(r'<<"SCRIPT", "(.*)">>', out)}, key=lambda s: (len(s), s))


def tlc_on(name, bug, ops, faults, depth, how, extra=(), timeout=800, workers=2):
    w = work("scripts-" + name)
    cfg = os.path.join(w, "s.cfg")
    open(cfg, "w").write(CFG.format(ops=ops, faults=faults, bug=bug, depth=depth, how=how))
    rc, out = tlc("DaemonScript", cfg, w, workers=workers, extra=extra, timeout=timeout, xmx="3g")
    if "Error:" in out:
        raise ToolError("TLC on DaemonScript: " + why(out))
    return out


def make(most=80):
    """what the variants get wrong: the shortest, and others"""
    def one(bug):
        ops, faults, depth = VARIANTS[bug]
        a = told(tlc_on(bug.replace(" ", "-"), bug, ops, faults, depth, "VIEW vars\nCONSTRAINT Wanting\nCONSTRAINT Near" + "\nCONSTRAINT Quiet" * (ops > 3)))
        few = a[:most // 4]
        return [json.dumps({"bug": bug, "s": json.loads(s)}, separators=(",", ":")) for s in few + sorted(random.Random(bug).sample(a[most // 4:], max(0, min(len(a), most) - len(few))))]
    with ThreadPoolExecutor(4) as ex:
        return [l for ls in ex.map(one, VARIANTS) for l in ls]


def wanting():
    ls = open(FILE).read().splitlines() if os.path.exists(FILE) else [""]
    if ls[0] != stamp():
        with Lock("scripts"):
            ls = open(FILE).read().splitlines() if os.path.exists(FILE) else [""]
            if ls[0] != stamp():
                ls = [stamp()] + make()
                open(FILE, "w").write("\n".join(ls) + "\n")
    return [json.loads(l) for l in ls[1:]]


def at_random(prop, n, seed):
    """behaviours of the model itself"""
    faults = 2 if prop == "D09" else 0
    out = tlc_on(prop, "none", 6, faults, 60, "INVARIANT Told", extra=("-simulate", f"num={n}", "-depth", "60", "-seed", str(seed)), workers=4, timeout=200)
    return [json.loads(s) for s in told(out)]


def plan(g, s, bug=""):
    """a behaviour as a scenario: clients, and who comes when"""
    from daemongen import ADV, IDLE
    r = g.r
    c = [[], [], [], [], []]
    go, ids, n, stop = [], {}, 0, False
    odd = r.random() < .5
    for e in s:
        a = e[0]
        if a == "Start":
            _, k, op, d = e
            n += 1
            ids[k] = n
            key = r.choice("kl") if odd else "k"
            q = {"op": {"put": "add_kv", "new": "add_db", "rm": "rm_db", "get": "get_db"}[op], "db": d}
            if op == "put":
                if odd and r.random() < .4:
                    q.update(op="put_db", over=True, body=[[key, g.val()]])
                else:
                    q.update(key=key, val=g.val(), create=True, over=True)
            if op == "new":
                if odd and r.random() < .4:
                    q["op"] = "clear"
                else:
                    q["over"] = True
            c[int(k)].append(q)
            go.append("c" + k)
            if op == "put" and bug == "invalidates before the lock":
                go.append(f"r{n}")
        elif a in ("Cached", "Lock", "Invalidate", "Remember", "Unlink"):
            go.append(f"r{ids[e[1]]}")
        elif a == "UnlinkFails":
            c[4] += [{"act": "fault", "db": e[2], "op": "unlink", "err": 5}, {"act": "heal"}]
            go += ["c4", f"r{ids[e[1]]}", "c4"]
        elif a == "Take":
            if not stop:
                c[2].append(ADV)
                go.append("c2")
            go.append("daemon")
        elif a == "Rename":
            go.append("file")
        elif a == "FileFails":
            c[4] += [{"act": "fault", "db": e[1], "op": "*", "err": r.choice([28, 13, 5])}, {"act": "heal"}]
            go += ["c4", "daemon", "daemon", "c4"]
        elif a == "Stop":
            stop = True
            c[3].append({"act": "signal", "sig": r.choice(["TERM", "INT"])})
            go.append("c3")
    if stop:
        return g.plan(c, script=go, until_exit=True, hold=[], slow=0)
    c[2] += [{"act": "done"}] + [IDLE] * (r.random() < .5) + [ADV, IDLE]
    x = {} if r.random() < .5 else dict(again=True)
    return g.plan(c, script=go, hold=[], slow=0, **x)


def scenarios(prop, n, k=0):
    """n of them, most from what the variants get wrong"""
    import daemongen as dg
    rng = random.Random(f"{SEED}-{prop}-scripts-{k}")
    mine = [x for x in wanting() if x["bug"] in ABOUT[prop]]
    a = rng.sample(mine, min(len(mine), n * 2 // 3))
    b = at_random(prop, n - len(a), rng.randrange(10 ** 9))
    b = rng.sample(b, min(len(b), n - len(a)))
    out = []
    for i, (name, s, bug) in enumerate([("model: " + x["bug"], x["s"], x["bug"]) for x in a] + [("model", s, "") for s in b]):
        out.append((name, [plan(dg.G(f"{SEED}-{prop}-script-{k}-{i}"), s, bug)]))
    return out


if __name__ == "__main__":
    print(len(wanting()))
