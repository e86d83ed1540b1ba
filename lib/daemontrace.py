"""Recorded lives of the daemon, as the specification reads them."""
from common import *

ALL = ["crash", "removed", "moment", "clock", "exit", "again", "alive", "escape"]
FIELDS = dict(db="", key="", val=0, over=False, create=False, body=[], status=0)


def cps(s):
    return [ord(c) for c in s]


def request(r):
    q = {k: r.get(k, v) for k, v in FIELDS.items()}
    q["op"] = r["op"]
    q["cp"] = cps(q["db"])
    if r["op"] == "raw":
        q["raw"] = r["raw"]
    return q


def trace(events):
    """One life: events of the simulator (or of a real daemon) to a trace of DaemonTrace.tla, and where each came from"""
    ends = {e["id"]: e["resp"] for e in events if e["e"] == "end"}
    t, back, dbs, start = [], [], set(), []
    seen_up = False
    last = None
    blind = []
    # one that cannot read what is there may as well not start
    refused = any(e["e"] == "blind" and e["dbs"] for e in events) and not any(e["e"] in ("start", "signal") for e in events)

    def add(n, **e):
        t.append(e)
        back.append(n)

    for n, e in enumerate(events):
        k = e["e"]
        if k == "start":
            r = request(e["req"])
            dbs.add(r["db"])
            if "raw" in r:
                dbs |= {v for p, v, _ in r["raw"]["params"] if p == "db_name"}
            add(n, e="start", id=e["id"], req=r, known=e["id"] in ends, resp=ends.get(e["id"], {"s": 0, "b": []}))
        elif k in ("end", "left"):
            add(n, e=k, id=e["id"])
        elif k == "adv":
            add(n, e="adv", idle=e["idle"])
        elif k in ("idle", "heal", "signal", "exit"):
            add(n, e=k)
        elif k == "fault":
            add(n, e="fault", db=e["db"], op=e["op"])
        elif k == "image":
            rec = e.get("rec", "none")
            if rec == "none":
                continue
            if not seen_up:
                seen_up = True
                start = rec if rec != "dead" else []
                dbs |= {d for d, _ in start}
                if rec == "dead":
                    add(n, e="bad", k="alive")
                continue
            same = e.get("rec2", rec) == rec
            key = (json.dumps(rec), same)
            if e["k"] == "io" and last == key and t and t[-1]["e"] == "image":
                continue
            last = key
            add(n, e="image", k=e["k"], dead=rec == "dead", rec=[] if rec == "dead" else rec, same=same)
        elif k == "blind":
            blind = sorted(dbs) if "meta" in e["dbs"] else [d for d in e["dbs"] if d in dbs]
        elif k == "died" and refused:
            add(n, e="exit")
        elif k in ("killed", "died", "hang"):
            add(n, e="bad", k="alive")
        elif k == "escape":
            add(n, e="bad", k="escape")
        elif k in ("over", "choices"):
            pass
        else:
            raise ToolError("an event that is not known: " + json.dumps(e)[:300])
    return {"t": t, "dbs": sorted(dbs), "start": start, "blind": blind}, back


def follow(prop, traces, mode, timeout=800, part="", weight=None):
    """How far each trace can be followed (an index past its end: wholly); and states visited"""
    if not traces:
        return [], (0, 0)
    d = work(prop)
    n = min(CPUS, max(1, len(traces) // 4))
    res = [None] * len(traces)
    tot = [0, 0]
    cfg = os.path.join(d, f"trace{part}.cfg")
    with open(cfg, "w") as h:
        h.write(open(os.path.join(SPEC, "DaemonTrace.cfg")).read().split("CONSTANT")[0] + "CONSTANT Mode = {" + ", ".join(f'"{m}"' for m in mode) + "}\n")
    from concurrent.futures import ThreadPoolExecutor

    def some(w, idx):
        f = os.path.join(w, "traces.ndjson")
        with open(f, "w") as h:
            for i in idx:
                h.write(json.dumps(traces[i]) + "\n")
        rc, out = tlc("DaemonTrace", cfg, w, workers=1, timeout=timeout, xmx="3g", envx={"TRACES": f}, jvm=("-XX:ParallelGCThreads=2",))
        m = re.search(r'<<\s*"REACHED",\s*<<(.*?)>>\s*>>', out, re.S)
        if not m:
            with open(os.path.join(w, "tlc.log"), "w") as h:
                h.write(out)
            return None, out
        a = [int(x) for x in m.group(1).split(",")]
        if len(a) != len(idx) or any(x < 1 for x in a):
            raise ToolError("TLC did not look at every life")
        s = states(out)
        tot[0] += s[0]
        tot[1] += s[1]
        return a, out

    def run(k):
        idx = list(range(k, len(traces), n))
        w = os.path.join(d, f"tlc{part}-{k}")
        os.makedirs(w, exist_ok=True)
        a, out = some(w, idx)
        if a is None and ("Attempted" in out or "valuating" in out):
            # something was answered that the specification cannot even be evaluated on: which life has it?
            lo, hi = 0, len(idx)
            while hi - lo > 1:
                mid = (lo + hi) // 2
                if some(w, idx[lo:mid])[0] is None:
                    hi = mid
                else:
                    lo = mid
            if some(w, idx[lo:hi])[0] is None:
                sys.stderr.write("not even evaluated: " + why(out)[:300] + "\n")
                a = [1 if j == lo else len(traces[i]["t"]) + 1 for j, i in enumerate(idx)]
        if a is None:
            raise ToolError("TLC failed on recorded lives: " + why(out) + " see " + w)
        for i, x in zip(idx, a):
            res[i] = x

    with ThreadPoolExecutor(n) as ex:
        list(ex.map(run, range(n)))
    return res, tuple(tot)
