"""The checks of the daemon's properties: its own sources run under a scheduler, and TLC says whether what they did is what spec/Daemon*.tla allows."""
import collections, copy, hashlib, json, os, sys, time
import daemongen as dg
import scripts
from common import *
from concurrent.futures import ThreadPoolExecutor
from daemontrace import ALL, follow, trace
from realdaemon import Bodies, build_real, run_real
from design import VARIANTS, design
from sim import build_sim, run_sim

DESIGNED = {p for v in VARIANTS.values() for p in v[3]}

# what is asked of a trace; what is known to be somebody else's matter; which events are this property's
ASK = {
    "D01": (["alive"], None), "D02": (["alive"], None), "D03": ([], None), "D04": (["exit", "again", "escape", "alive", "crash"], None),
    "D05": (["exit", "again"], []), "D06": (["crash"], []), "D07": (["removed"], []), "D08": (["exit", "alive"], []),
    "D09": (["crash", "removed", "moment", "exit", "again", "alive"], None), "D10": (["alive"], None), "D11": (["moment", "clock"], ["moment"]), "D12": (["moment"], []),
    "D13": (["crash", "removed", "exit", "alive"], None),
}
TIME = 10  # a life that takes more of real time than this many seconds hangs


def scenarios(prop, k, n, extra=None):
    """the k-th n scenarios of a property: (generator's name, lives)"""
    gens = {"D01": [(dg.sequential, 1)], "D02": [(dg.concurrent, 1)], "D03": [(dg.fetches, 1)], "D04": [(dg.names, 1)], "D05": [(dg.restarts, 4), (dg.single, 1)], "D06": [(dg.crashes, 4), (dg.removals, 1)], "D07": [(dg.removals, 1)],
            "D08": [(dg.stops, 4), (dg.restarts, 1), (dg.single, 2)], "D09": [(dg.faulty, 5), (dg.orphaned, 1)], "D11": [(dg.timely, 3), (dg.single, 1)], "D12": [(dg.moments, 1)], "D13": [(dg.blinded, 1)]}
    out = []
    if prop == "D10":
        return [(f.__name__, f(dg.G(f"{SEED}-{prop}-{i}"), extra)) for i in range(k * n, k * n + n) for f in [dg.asked if i % 3 == 2 else dg.malformed]]
    fs = [f for f, w in gens[prop] for _ in range(w)]
    for i in range(k * n, k * n + n):
        f = fs[i % len(fs)]
        g = dg.G(f"{SEED}-{prop}-{i}")
        l = f(g)
        out.append((f.__name__, l if f is dg.names else dg.disguise(g, l)))
    return out


HOW = {False: "the scenario is run by lib/sim.py:run_sim; spec/DaemonTrace.tla follows the events up to the one named",
       True: "the scenario is run by lib/realdaemon.py:run_real against the daemon as it is; spec/DaemonTrace.tla follows the events up to the one named"}


class Daemons:
    """runs scenarios and judges their lives"""

    def __init__(self, prop, real=False):
        self.prop, self.real = prop, real
        self.bin = build_real() if real else build_sim()
        self.bodies = Bodies() if real else None
        self.scenarios = self.lives = self.events = self.images = self.lost = 0
        self.distinct = set()
        self.st = [0, 0]
        self.kinds = collections.Counter()
        self.samples = []
        self.judged = {}
        self.found = []

    def run(self, scs, timeout=600):
        """scs: lists of lives; gives for each the (trace, back, events) of each life, or None"""
        scs = [dict(id=i, lives=l) for i, l in enumerate(scs)]
        rs, err = run_real(self.bin, scs, self.bodies, timeout=timeout) if self.real else run_sim(self.bin, scs, timeout=timeout)
        out = []
        for r in rs:
            if r is None:
                out.append(None)
                continue
            ls = []
            for l in r["lives"]:
                if l and l[0].get("e") == "lost":
                    # the process died: nothing of it is left to be judged but that
                    l = [{"e": "image", "k": "up", "rec": []}, {"e": "died", "why": l[0].get("why")}]
                ls.append((*trace(l), l))
            out.append(ls)
        self.scenarios += len(scs)
        return out

    def follow(self, traces, mode):
        """distinct traces only"""
        keys = [hashlib.sha1((json.dumps(t) + ",".join(mode)).encode()).digest() for t in traces]
        new = {}
        for k, t in zip(keys, traces):
            if k not in self.judged and k not in new:
                new[k] = t
        got, st = follow(self.prop, list(new.values()), mode)
        self.st[0] += st[0]
        self.st[1] += st[1]
        self.judged.update(zip(new, got))
        return [self.judged[k] for k in keys], len(new)

    def relevant(self, t, at, rejected_at):
        """whether what cannot be explained is this property's matter"""
        p = self.prop
        e = t["t"][at - 1]
        k = e["e"]
        if p == "D03":
            if k != "end":
                return False
            r = next(x["req"] for x in t["t"] if x["e"] == "start" and x["id"] == e["id"])
            return r["op"] == "get_db"
        if p in ("D01", "D02", "D10"):
            return k == "end" or (k == "bad" and e["k"] == "alive")
        if p in ("D04", "D09", "D13"):
            return True
        if p == "D08":
            if k == "end":
                return any(x["e"] == "signal" for x in t["t"][:at])
            return k in ("image", "bad")
        if p == "D05":
            return k == "image" or (k == "bad" and at <= 1)
        return k in ("image", "idle")

    def differs(self, name, lives, mode):
        """for properties about what odd names or failures do: whether the same goes well without them"""
        lives = copy.deepcopy(lives)
        if self.prop == "D09":
            for l in lives:
                l["clients"] = [[s for s in c if s.get("act") not in ("fault", "heal")] for c in l["clients"]]
        elif self.prop == "D13":
            for l in lives:
                l.pop("blind", None)
        elif self.prop == "D04":
            table = {}
            for l in lives:
                for c in l["clients"]:
                    for s in c:
                        if "db" in s:
                            s["db"] = table.setdefault(s["db"], f"p{len(table)}")
        else:
            return True
        r = self.run([lives])[0]
        if r is None:
            return False
        got, _ = self.follow([t for t, _, _ in r], mode)
        return all(g > len(t["t"]) for g, (t, _, _) in zip(got, r))

    def judge(self, scs):
        """scs: (name, lives)"""
        mode, base = ASK[self.prop]
        rs = self.run([l for _, l in scs])
        items = []
        for n, ((name, lives), r) in enumerate(zip(scs, rs)):
            if r is None:
                self.lost += 1
                continue
            self.kinds[name] += 1
            for k, (t, back, l) in enumerate(r):
                items.append((n, k, t, back, l))
                self.lives += 1
                self.events += len(t["t"])
                self.images += sum(e["e"] == "image" for e in t["t"])
                self.distinct.add(hashlib.sha1(json.dumps(t).encode()).digest())
                if len(self.samples) < 3 and len(t["t"]) > 6 and name not in [s["scenario"] for s in self.samples]:
                    self.samples.append({"scenario": name, "seed": lives[k].get("seed"), "requests": [e["req"]["op"] for e in l if e["e"] == "start"], "events": len(t["t"])})
        got, _ = self.follow([i[2] for i in items], mode)
        bad = [(i, g) for i, g in zip(items, got) if g <= len(i[2]["t"])]
        bad = [(i, g) for i, g in bad if self.relevant(i[2], g, g)]
        if base is not None and bad:
            got, _ = self.follow([i[2] for i, _ in bad], base)
            bad = [(i, g) for (i, g), h in zip(bad, got) if h > g]
        for (n, k, t, back, l), g in bad:
            if len(self.found) >= 5:
                break
            name, lives = scs[n]
            if not self.differs(name, lives, mode):
                continue
            self.found.append({"property": self.prop, "scenario": {"id": 0, "lives": lives[:k + 1]}, "life": k, "unexplained_event": l[back[g - 1]], "event_number": back[g - 1],
                               "events": l, "mode": mode, "how": HOW[self.real]})
        return len(bad)

    def all_orders(self, cases, most):
        """small cases: every order in which their steps can be taken (up to `most` of each)"""
        mode, _ = ASK[self.prop]
        jobs = []
        for start, clients, end in cases:
            c = [list(start)] + [[{"act": "after"}] + x for x in clients] + [[{"act": "after"}, {"act": "reqs", "n": 99}] + end]
            jobs.append({"clients": c, "todo": [[]], "done": 0})
        total = 0
        while True:
            scs, who = [], []
            for j in jobs:
                while j["todo"] and j["done"] < most and len(scs) < 40000:
                    o = j["todo"].pop()
                    j["done"] += 1
                    scs.append(dict(seed=1, sticky=0, time=0, eager=False, clients=j["clients"], order=o, rest="first", choices=True, rec="up"))
                    who.append((j, o))
            if not scs:
                break
            total += len(scs)
            rs = self.run([[s] for s in scs])
            items = []
            for s, (j, o), r in zip(scs, who, rs):
                if r is None:
                    self.lost += 1
                    continue
                t, back, l = r[0]
                items.append((s, t, back, l))
                self.lives += 1
                taken = next((e["c"] for e in l if e["e"] == "choices"), [])
                picks = [a for a, _ in taken]
                for i in range(len(o), len(taken)):
                    for a in range(1, taken[i][1]):
                        j["todo"].append(picks[:i] + [a])
            got, new = self.follow([i[1] for i in items], mode)
            for (s, t, back, l), g in zip(items, got):
                self.distinct.add(hashlib.sha1(json.dumps(t).encode()).digest())
                if g <= len(t["t"]) and self.relevant(t, g, g) and len(self.found) < 5:
                    self.found.append({"property": self.prop, "scenario": {"id": 0, "lives": [s]}, "life": 0, "unexplained_event": l[back[g - 1]], "event_number": back[g - 1], "events": l, "mode": mode,
                                       "how": HOW[self.real]})
            if self.found:
                break
        self.kinds["every order of few requests"] += total
        return total, sum(not j["todo"] for j in jobs), len(jobs)


def walks(prop, rng, length, count):
    """walks over the states of DaemonMC that take every step, and further ones at random"""
    from libcheck import explore, histories
    d = work(prop)
    sts, st = explore(prop, "DaemonMC", "DaemonMC.cfg")
    key = lambda m: json.dumps(m if m else {}, sort_keys=True)
    adj = collections.defaultdict(list)
    for m, r, x, m2 in sts:
        adj[key(m)].append((r, x, key(m2)))
    todo = {k: list(range(len(v))) for k, v in adj.items()}
    for v in todo.values():
        rng.shuffle(v)
    left = len(sts)
    out = []
    while left or len(out) < count:
        cur, w = key({}), []
        while len(w) < length:
            if todo[cur]:
                i = todo[cur].pop()
                left -= 1
            elif left:
                # towards a step not taken yet
                seen, q, hit = {cur: None}, collections.deque([cur]), None
                while q and hit is None:
                    x = q.popleft()
                    if todo[x]:
                        hit = x
                    for i, (_, _, y) in enumerate(adj[x]):
                        if y not in seen:
                            seen[y] = (x, i)
                            q.append(y)
                path = []
                while seen[hit]:
                    path.append(seen[hit])
                    hit = seen[hit][0]
                for x, i in reversed(path):
                    w.append(adj[x][i])
                    cur = adj[x][i][2]
                continue
            else:
                i = rng.randrange(len(adj[cur]))
            w.append(adj[cur][i])
            cur = adj[cur][i][2]
        out.append(w)
    return out, len(sts), st


def same_body(op, want, got):
    """the specification's content of a response against what came"""
    s, b = want
    if got["s"] != s:
        return False
    if s >= 300:
        return True
    f = lambda x: sorted(json.dumps(y) for y in x)
    return f(b) == f(got["b"])


def replay(dm, rng, length, count):
    """walks of the specification, replayed into the real daemon one request after another"""
    ws, nsteps, st = walks(dm.prop, rng, length, count)
    scs = []
    for i, w in enumerate(ws):
        p = dict(seed=i + 1, sticky=rng.choice([0, 90]), time=rng.choice([0, 0, 3]), eager=rng.random() < .5, clients=[[r for r, _, _ in w]], rec="up")
        scs.append([p])
    rs = dm.run(scs)
    done = 0
    for w, sc, r in zip(ws, scs, rs):
        if r is None:
            dm.lost += 1
            continue
        t, back, l = r[0]
        dm.lives += 1
        ends = {e["id"]: e["resp"] for e in l if e["e"] == "end"}
        for n, (q, want, _) in enumerate(w):
            g = ends.get(n + 1, {"s": -9, "b": []})
            done += 1
            if not same_body(q["op"], want, g):
                if len(dm.found) < 5:
                    dm.found.append({"property": dm.prop, "scenario": {"id": 0, "lives": sc}, "request_number": n + 1, "request": q, "expected": want, "got": g, "how": "walk of spec/DaemonMC.tla replayed into the daemon"})
                break
    dm.kinds["walks of the specification"] += len(ws)
    return nsteps, st, done


def bodies(rng):
    """bodies of known meaning, written by the real library, and bodies that no reader may accept"""
    binary = build_conf()
    le = lambda n: list(n.to_bytes((n.bit_length() + 7) // 8, "little"))
    ns = [0, 1, 7, 15, 16, 200, 255, 256, 65535, 65536, 10 ** 6, 2 ** 31 - 1] + [rng.randrange(2 ** 31) for _ in range(8)]
    keys = ["k", "l", "m", "", "\u043a", "long " * 30]
    num = lambda n: [4, [0, le(n)]]
    vs = execute(binary, [{"op": "value", "v": num(n), "dicts": [None]} for n in ns])
    stores = [[]] + [[[k, rng.choice(ns)] for k in sorted(rng.sample(keys, rng.randint(1, 4)))] for _ in range(12)]
    ss = execute(binary, [{"op": "store", "v": [[[ord(c) for c in k], num(n)] for k, n in s]} for s in stores])
    if any(o["r"] != "ok" for o in vs + ss):
        return None
    bad_v = [[], [0x4F, 1, 1], [0xF0], [0xFF, 0xFF], [0x20 | 8, 65], [0x40], [0xB1], list(b"hello"), list(b'{"Integer": 5}')]
    bad_s = [[], [0xFF, 1], [1], [0, 0, 0], list(b"{}"), [0xF8] + [255] * 8, list(b"hello there, this is no store")]
    b = {"value": [(o["encs"][0]["enc"], n) for o, n in zip(vs, ns)], "store": [(o["enc"], s) for o, s in zip(ss, stores)]}
    a = execute(binary, [{"op": "vdec", "b": x, "d": None} for x in bad_v] + [{"op": "sdec", "b": x} for x in bad_s])
    # some byte strings are encodings all the same; the specification decides about each, but what they hold is not known here
    b["bad value"] = [x for x, o in zip(bad_v, a) if o["r"] == "err"]
    b["bad store"] = [x for x, o in zip(bad_s, a[len(bad_v):]) if o["r"] == "err"]
    return b


def start_ok(dm):
    """a life of the plainest kind; if that cannot be followed, the scheduler does not fit the sources"""
    p = dict(seed=1, sticky=0, time=0, clients=[[dict(op="health"), dict(op="add_kv", db="a", key="k", val=1, create=True, over=True), dict(op="get_db", db="a"), {"act": "adv", "ms": 10000}, {"act": "idle"},
                                                 {"act": "signal", "sig": "TERM"}]], until_exit=True)
    r = dm.run([[p]])[0]
    if r is None:
        return False
    t, _, l = r[0]
    got, _ = dm.follow([t], [])
    return got[0] > len(t["t"]) and any(e["e"] == "exit" for e in l)


RULE = ("a case is one life of the daemon (its own sources under a seeded scheduler: which task goes on next, when time passes, which file operation fails, when it is stopped or dies); "
        "it is distinct and non-trivial when its sequence of recorded events (requests, responses, what a start on the files of that moment finds) differs from all others")
MC = ("D01", "D02", "D03", "D05", "D07", "D08", "D11", "D12")
QUICK = {"D01": (240, 1), "D02": (400, 1), "D03": (300, 1), "D04": (160, 1), "D05": (160, 1), "D06": (120, 1), "D07": (160, 1), "D08": (300, 1), "D09": (240, 1), "D10": (240, 1), "D11": (240, 1), "D12": (300, 1), "D13": (240, 1)}
BUDGET = 600
# the daemon as it is: generators, how many scenarios (quick), and how many if there is no scheduler
REAL = {"D01": ([(dg.sequential, 1)], 24, 200), "D02": ([(dg.concurrent, 1)], 60, 1200), "D03": ([(dg.fetches, 1)], 40, 1200), "D04": ([(dg.names, 1)], 24, 150), "D05": ([(dg.restarts, 1)], 24, 150),
        "D06": ([(dg.killed, 2), (dg.crashes, 1)], 24, 150), "D07": ([(dg.removals, 1)], 16, 150), "D08": ([(dg.slowly, 1), (dg.stops, 1)], 40, 400), "D09": ([(dg.faulty, 1)], 16, 150),
        "D10": ([(dg.malformed, 2), (dg.asked, 1)], 24, 200), "D11": ([(dg.timely, 1)], 16, 120), "D12": ([(dg.moments, 1)], 24, 240), "D13": ([(dg.blinded, 1)], 20, 150)}


def real_scenarios(prop, k, n, extra, values):
    gens = [f for f, w in REAL[prop][0] for _ in range(w)]
    out = []
    for i in range(k * n, k * n + n):
        g = dg.G(f"{SEED}-{prop}-real-{i}")
        f = gens[i % len(gens)]
        l = f(g, extra) if f in (dg.malformed, dg.asked) else f(g) if f is dg.names else dg.disguise(g, f(g))
        if values and prop in ("D01", "D05") or (values and g.r.random() < .2 and prop != "D10"):
            l = dg.of_kinds(g, l, values)
        if prop in ("D01", "D04", "D10"):
            l = dg.shorter(l)
        out.append(("real: " + f.__name__, l))
    if k == 0 and prop in ("D01", "D05"):
        g = dg.G(f"{SEED}-{prop}-large")
        out[:0] = [("real: bulky", dg.bulky(g)) if prop == "D01" else ("real: heavy", dg.heavy(g)), ("real: many", dg.many(g))]
    return out


def kinds(rng):
    from libcases import Cases
    c = Cases(rng.randrange(10 ** 9))
    return [c.g.value(rng.choice([0, 1, 2])) for _ in range(120)]


def run(prop):
    import random
    t0 = time.time()
    rng = random.Random(f"{SEED}-{prop}")
    extra = bodies(rng) if prop == "D10" else None
    cov = {}
    dms = []
    side = ThreadPoolExecutor(1)
    designed = side.submit(design, prop, cov) if prop in DESIGNED else None
    try:
        dm = Daemons(prop)
        if start_ok(dm):
            dms.append(dm)
        else:
            cov["scheduler"] = "the daemon does not do the plainest things under the scheduler; judged as it is only"
    except ToolError as e:
        dm = None
        cov["scheduler"] = "not available for these sources: " + str(e)[-300:]
    if dms:
        with_scheduler(prop, dm, rng, extra, cov, t0)
    if not (dms and dm.found):
        rm = Daemons(prop, real=True)
        if not start_ok(rm) and prop not in ("D01", "D05"):
            if not dms:
                raise ToolError("the daemon does not do the plainest things: " + cov["scheduler"])
        else:
            dms.append(rm)
            _, n, alone = REAL[prop]
            n = n if len(dms) > 1 else alone
            values = kinds(rng)
            k = 0
            while not rm.found and (k < 1 if not THOROUGH else time.time() - t0 < BUDGET + 150 and k < 6):
                rm.judge(real_scenarios(prop, k, n, extra, values))
                k += 1
    listed = LISTED.get(prop, lambda: [])()
    if designed:
        designed.result()
    finish(dms, prop, t0, cov, listed)
    return 1 if listed or any(d.found for d in dms) else 0


def deep_value():
    """a value nested 20000 deep, sent to the daemon as it is and asked for again"""
    import shutil, tempfile
    from realdaemon import Daemon
    root = tempfile.mkdtemp(prefix="souris-deep-", dir="/dev/shm")
    body = b"\xb2" * 20000 + b"\x90"
    said = []
    try:
        d = Daemon(build_real(), os.path.join(root, "base"), root, speed=1)
        try:
            said.append(d.ask("PUT", "/v1/add_kv?db_name=a&key=k&create_new_database=true&overwrite_key=true", body)[0])
            s, b = d.ask("GET", "/v1/get_value?db_name=a&key=k", b"")
            said += [s, b == body]
        except OSError:
            said.append("no answer")
        d.kill()
        return said
    finally:
        shutil.rmtree(root, ignore_errors=True)


def listed_d01():
    said = deep_value()
    # refusing it would do as well
    if said == [200, 200, True] or (said and said[0] in range(400, 500) and "no answer" not in said):
        return []
    if "deep-value" in known("D01"):
        print("KNOWN-FINDING: property=D01 " + known("D01")["deep-value"], flush=True)
        return []
    return [("deep-value", {"property": "D01", "request": "PUT /v1/add_kv with a body of 20000 bytes B2 and a byte 90, then GET /v1/get_value", "answers": said})]


LISTED = {"D01": listed_d01}


def with_scheduler(prop, dm, rng, extra, cov, t0):
    size, n = QUICK[prop]
    if prop == "D01":
        steps, st, done = replay(dm, rng, 60, 60 if THOROUGH else 8)
        cov.update(steps_of_the_graph=steps, steps_executed=done)
        dm.st[0] += st[0]
        dm.st[1] += st[1]
    if prop in ("D02", "D03"):
        cases = [c for c in dg.pairs(THOROUGH) if prop == "D02" or any(q["op"] == "get_db" for x in c[1] for q in x)]
        if not THOROUGH:
            cases = rng.sample(cases, min(len(cases), 40))
        total, whole, of = dm.all_orders(cases, 400 if THOROUGH else 60)
        cov.update(orders_executed=total, cases_with_every_order=whole, cases_of_few_requests=of)
    if prop in scripts.ABOUT:
        dm.judge(scripts.scenarios(prop, 120))
    k = 0
    while not dm.found and (k < n if not THOROUGH else time.time() - t0 < BUDGET):
        dm.judge(scenarios(prop, k, size, extra))
        k += 1
        if THOROUGH and prop in scripts.ABOUT:
            dm.judge(scripts.scenarios(prop, 400, k))


def finish(dms, prop, t0, cov, listed):
    found = [f for d in dms for f in d.found]
    for i, f in enumerate(found):
        violation(prop, replay_file(prop, f"violation-{i}.json", f))
    for what, data in listed:
        violation(prop, replay_file(prop, what + ".json", data))
    tot = lambda a: sum(getattr(d, a) for d in dms)
    cov.update(scenarios=tot("scenarios"), lives=tot("lives"), events=tot("events"), images_recovered=tot("images"), by_kind={k: n for d in dms for k, n in d.kinds.items()},
               samples=[s for d in dms for s in d.samples][:4])
    if tot("lost"):
        cov["scenarios_without_answer"] = tot("lost")
    level = "model_checking" if prop in MC else "fault_enumeration" if prop in ("D06", "D09", "D13") else "exploration"
    st = [sum(d.st[i] for d in dms) for i in (0, 1)]
    distinct = len(set().union(*[d.distinct for d in dms])) if dms else 0
    if level == "model_checking":
        cov.update(states=st[1], transitions=st[0], traces_validated_against_impl=tot("lives"))
    else:
        cov.update(evaluations=tot("lives"), distinct_nontrivial=distinct, rule=RULE, tlc_states=st[1])
    sys.stderr.write(f"{prop}: {tot('scenarios')} scenarios, {tot('lives')} lives, {distinct} distinct, {time.time() - t0:.0f} s, found {len(found)}, lost {tot('lost')}{' (no scheduler)' if 'scheduler' in cov else ''}\n")
    evidence(prop, level, cov, t0, len(found) + len(listed), ["the stand-ins for tokio, moka and axum::serve behave as the real ones may", "the interposed file operations are all that reaches the disk",
                                                                "TLC evaluates the specification correctly"])
