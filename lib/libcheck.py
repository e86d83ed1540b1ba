"""The checks of the library properties C01 to C17: inputs are made, the real code runs them, TLC judges what it did."""
import json, os, re, struct, sys, time
import libcases
from libcases import Cases
from common import *

RULE = ("inputs are drawn from seeded generators and boundary lists (lib/gen.py, lib/libcases.py), executed by the real library, and every execution is judged by TLC "
        "against spec/LibCases.tla; a case counts as distinct and non-trivial when its request differs from all others and is longer than 24 bytes of JSON beyond its empty form")


def batches(cases, limit=24_000_000):
    out, size = [[]], 0
    for i, c in enumerate(cases):
        n = len(json.dumps(c))
        if size + n > limit and out[-1]:
            out.append([])
            size = 0
        out[-1].append(i)
        size += n
    return out


def steps(out):
    """the <<"STEP", json>> lines of a TLC run"""
    for l in out.splitlines():
        if l.startswith('<<"STEP", "'):
            yield json.loads(json.loads(l[len('<<"STEP", '):-2]))


def explore(prop, module, cfg, text=None):
    """Explores a state machine exhaustively; gives its steps and the counts. A broken model is an error of the tool."""
    d = work(prop)
    if text:
        cfg = os.path.join(d, os.path.basename(cfg))
        with open(cfg, "w") as h:
            h.write(text)
    rc, out = tlc(module, cfg, d, workers=1, timeout=600)
    if rc != 0:
        raise ToolError(f"the model {module} does not have its properties: " + why(out))
    return list(steps(out)), states(out)


def histories(steps, start, key, maxlen):
    """walks from `start` that take every step at least once"""
    import collections
    todo = collections.defaultdict(list)
    adj = collections.defaultdict(list)
    for s, op, arg, t in steps:
        todo[key(s)].append((op, arg, key(t)))
        adj[key(s)].append((op, arg, key(t)))
    walks, left = [], len(steps)
    while left:
        cur, walk = key(start), []
        while len(walk) < maxlen and left:
            if todo[cur]:
                op, arg, cur = todo[cur].pop()
                left -= 1
                walk.append((op, arg))
                continue
            seen, q, hit = {cur: None}, collections.deque([cur]), None
            while q:
                x = q.popleft()
                if todo[x]:
                    hit = x
                    break
                for op, arg, t in adj[x]:
                    if t not in seen:
                        seen[t] = (x, op, arg)
                        q.append(t)
            if hit is None:
                break
            path = []
            while seen[hit]:
                x, op, arg = seen[hit]
                path.append((op, arg))
                hit = x
                cur = cur
            for op, arg in reversed(path):
                walk.append((op, arg))
                cur = next(t for o, a, t in adj[cur] if o == op and a == arg)
        if not walk:
            break
        walks.append(walk)
    return walks


def corpus(binary, c):
    """encodings that the code itself makes, for C04"""
    vs = libcases.all_singles(c.g)[::2] + [c.g.value(c.r.choice([1, 2])) for _ in range(60 * libcases.N)]
    out = []
    for o in execute(binary, [{"op": "value", "v": v, "dicts": [None]} for v in vs]):
        if o["r"] == "ok":
            out.append(("vdec", o["encs"][0]["enc"], {"d": None}))
    es = libcases.stores(c, 40 * libcases.N)
    for o in execute(binary, [{"op": "store", "v": e} for e in es]):
        if o["r"] == "ok":
            out.append(("sdec", o["enc"], {}))
    bs = [c.g.blob(True) for _ in range(40 * libcases.N)]
    for o in execute(binary, [{"op": "blob", "b": b} for b in bs]):
        if o["r"] == "ok":
            out += [("bdec", e["enc"], {"c": e["c"]}) for e in o["all"]]
    for o in execute(binary, [{"op": "dict", "text": c.g.text() or [97], "probes": [[98]]} for _ in range(15)]):
        if o["r"] == "ok":
            out.append(("ddec", o["ser"], {"bytes": False}))
    for o in execute(binary, [{"op": "dict8", "text": c.g.blob(False)[:200] or [7], "miss": [0]} for _ in range(15)]):
        if o["r"] == "ok":
            out.append(("ddec", o["ser"], {"bytes": True}))
    ns = libcases.BOUNDARY + [x for k in range(1, 17) for x in (1 << (8 * k - 1), -(1 << (8 * k - 1)), (1 << (8 * k)) - 1) if -(1 << 127) <= x < 1 << 128]
    for o in execute(binary, [{"op": "int", "v": c.g.typed(n)} for n in ns]):
        if o["r"] == "ok":
            out.append(("idec", o["enc"], {"ss": o["ss"]}))
    for n in (1, 7, 8, 9, 63, 64, 65, 128, 239, 240, 256, 500):
        out.append(("bitsdec", ([n] if n < 240 else [240, n] if n < 256 else [241, n % 256, n // 256]) + [c.r.getrandbits(8) for _ in range((n + 7) // 8)], {}))
    return out


def encodings(binary, c):
    """values and stores as the code itself writes them"""
    out = []
    vs = libcases.values(c, 150 * libcases.N)
    for v, o in zip(vs, execute(binary, [{"op": "value", "v": v, "dicts": [None]} for v in vs])):
        if o["r"] == "ok":
            out.append(("value", o["encs"][0]["enc"], libcases.want(v)))
    es = libcases.stores(c, 120 * libcases.N)
    for e, o in zip(es, execute(binary, [{"op": "store", "v": e} for e in es])):
        if o["r"] == "ok":
            out.append(("store", o["enc"], libcases.want([8, e])[1]))
    return out


def written(prop, orders):
    """what the specification's writers make of the orders (TLC)"""
    d = work(prop)
    f = os.path.join(d, "orders.ndjson")
    with open(f, "w") as h:
        for o in orders:
            h.write(json.dumps(o) + "\n")
    rc, out = tlc("WriterCases", "WriterCases.cfg", d, cases=f)
    if rc != 0:
        raise ToolError("the specification does not understand its own writers: " + why(out))
    res = {}
    for l in out.splitlines():
        if l.startswith('<<"WROTE", "'):
            r = json.loads(json.loads(l[len('<<"WROTE", '):-2]))
            res[r["n"]] = r
    if len(res) != len(orders):
        raise ToolError(f"{len(res)} of {len(orders)} orders were written")
    return [res[i + 1] for i in range(len(orders))], states(out)


def no_text_kinds(v):
    """without the kinds whose content other libraries decide (JSON text, zone names)"""
    return v[0] not in (7, 12) and (v[0] not in (8, 11) or all(no_text_kinds(x[1] if v[0] == 8 else x) for x in v[1]))


def C03(c, prop):
    libcases.C03(c)
    orders = libcases.writer_orders(c)
    got, st = written(prop, orders)
    for o, w in zip(orders, got):
        if o["what"] == "value":
            c.add({"op": "vdec", "b": w["b"] + [0x90, 7], "d": w["d"][0] if w["d"] else None}, "value.dec", want=o["v"], len=len(w["b"]))
        elif o["what"] == "store":
            c.add({"op": "sdec", "b": w["b"]}, "store.dec", want=o["v"])
        elif o["what"] == "blob":
            c.add({"op": "bdec", "b": w["b"] + [9], "c": 1 if o["comp"] == 4 else o["comp"]}, "blob.dec", want=o["v"], len=len(w["b"]))
        else:
            c.add({"op": "ddec", "b": w["b"], "bytes": False}, "dict.dec", b=w["b"])
            from_bits = lambda b: b
            c.add({"op": "dbits", "d": w["b"], "bits": bits_of(w["d"][0])}, "dbits", d=w["b"], bits=bits_of(w["d"][0]))
    # and the same damaged: whatever is still a legal encoding must be read as the specification reads it
    for o, w in zip(orders, got):
        if len(w["b"]) > 1500:
            continue
        if o["what"] == "value" and no_text_kinds(o["v"]):
            for _ in range(2):
                m = libcases.mutate(c, w["b"])
                c.add({"op": "vdec", "b": m, "d": None}, "value.same", b=m, d=[])
        elif o["what"] == "store" and no_text_kinds([8, o["v"]]):
            m = libcases.mutate(c, w["b"])
            c.add({"op": "sdec", "b": m}, "store.same", b=m)
    return st


def bits_of(enc):
    """the bits of an encoded bit list (number of bits in one or more bytes, then the bytes)"""
    if enc[0] < 240:
        n, p = enc[0], 1
    else:
        k = enc[0] - 239
        n, p = sum(x << (8 * i) for i, x in enumerate(enc[1:1 + k])), 1 + k
    return [enc[p + i // 8] >> (i % 8) & 1 for i in range(n)]


def run(prop):
    t0 = time.time()
    binary = build_conf()
    c = Cases(SEED * 100 + int(prop[1:]))
    st = [0, 0]
    model = None
    if prop == "C03":
        st = list(C03(c, prop))
    elif prop == "C04":
        libcases.C04(c, corpus(binary, c))
    elif prop == "C07":
        sts, model = explore(prop, "BitListMC", "BitListMC-thorough.cfg" if THOROUGH else "BitListMC.cfg")
        libcases.C07(c, [[[o, a] for o, a in h] for h in histories(sts, [], tuple, 400)])
        nsteps = len(sts)
    elif prop == "C08":
        hs, model, nsteps = [], [0, 0], 0
        base = open(os.path.join(SPEC, "CursorMC.cfg")).read()
        for n in (0, 1, 2, 3, 5, 8) if THOROUGH else (0, 1, 3):
            sts, m = explore(prop, "CursorMC", "CursorMC.cfg", base.replace("N = 3", f"N = {n}"))
            model = [model[0] + m[0], model[1] + m[1]]
            nsteps += len(sts)
            hs += [(n, [(o, a[0], sum(x << (8 * i) for i, x in enumerate(a[1]))) for o, a in h]) for h in histories(sts, 0, lambda x: x, 200)]
        libcases.C08(c, hs)
    elif prop == "C17":
        libcases.C17(c, encodings(binary, c))
        binary = build_web()
    else:
        getattr(libcases, prop)(c)
    t1 = time.time()
    outs = execute(binary, c.req)
    cases = []
    for q, f, o in zip(c.req, c.fields, outs):
        f = dict(f)
        if f["chk"] == "calm":  # only how it ended matters
            o = {k: x for k, x in o.items() if k in ("r", "p", "peak")}
        f["o"] = o
        cases.append(f)
    t2 = time.time()
    bad, bats = [], batches(cases)
    jst = [0, 0]
    for k, b in enumerate(bats):
        r, s = judge(prop, "LibCases", [cases[i] for i in b], part=str(k))
        bad += [b[i] for i in r]
        jst = [jst[0] + s[0], jst[1] + s[1]]
    extra = listed(binary, prop)
    sys.stderr.write(f"{prop}: {len(cases)} cases, made {t1 - t0:.1f} s, run {t2 - t1:.1f} s, judged {time.time() - t2:.1f} s, rejected {len(bad)}\n")
    for i in bad[:5]:
        p = replay_file(prop, f"violation-{i}.json", {"property": prop, "judgement": c.fields[i]["chk"], "request": c.req[i], "answer": outs[i],
                                                      "how": "echo '<request>' | /verif/target/debug/conf; spec/LibCases.tla!Verdict rejects the answer"})
        violation(prop, p)
    for what, data in extra:
        violation(prop, replay_file(prop, what + ".json", data))
    seen = set()
    for q in c.req:
        s = json.dumps(q)
        if len(s) > 24 + len(q["op"]):
            seen.add(s)
    import collections
    pick = [json.loads(s) for s in sorted(seen, key=len)[:: max(1, len(seen) // 3)][:3]]
    pick = [p if len(json.dumps(p)) < 1500 else {"op": p["op"], "bytes_of_request": len(json.dumps(p))} for p in pick]
    cov = {"evaluations": len(cases), "distinct_nontrivial": len(seen), "rule": RULE, "samples": pick,
           "by_judgement": dict(collections.Counter(f["chk"] for f in c.fields)),
           "outcomes": dict(collections.Counter(o["r"] for o in outs)), "tlc_states_judging": jst[1]}
    level = "exploration"
    if model:
        level = "model_checking"
        cov.update(states=model[1], transitions=model[0], traces_validated_against_impl=len(c.req), steps_of_the_graph_executed=nsteps)
    if st[0]:
        cov["tlc_states_writing"] = st[1]
    evidence(prop, level, cov, t0, len(bad) + len(extra), ["the executor harness/conf reports truthfully what the library did", "TLC evaluates the specification correctly"])
    return 1 if bad or extra else 0


JD = "7.867020816339783e-203"
DOUBLE = list(struct.pack("<d", float(JD)))
deep_json = [ord(x) for x in "[" * 130 + "]" * 130]
jd = [ord(x) for x in JD]


def single(v):
    return {"op": "value", "v": v, "dicts": [None]}, {"chk": "value", "want": v}


def in_store(v):
    e = [[[97], v]]
    return {"op": "store", "v": e}, {"chk": "store", "want": e, "nan": False}


#: the inputs of the findings that are recorded but not repaired: tried on every run, one by one
LISTED = {
    "C01": {"deep-value": ({"op": "nested", "n": 20000}, {"chk": "calm", "b": [0], "prefix": False, "c": 0}), "json-double": in_store([7, jd]), "json-depth": in_store([7, deep_json])},
    "C02": {"deep-value": ({"op": "nested", "n": 20000}, {"chk": "calm", "b": [0], "prefix": False, "c": 0}), "json-double": single([7, jd]), "json-depth": single([7, deep_json])},
    "C04": {"deep-nesting": ({"op": "vdec", "b": [0xB2] * 300000 + [0x90], "d": None}, {"chk": "calm", "b": [], "prefix": False, "c": 0})},
    "C13": {"json-double": ({"op": "json", "v": [10, DOUBLE]}, {"chk": "json.typed", "want": [10, DOUBLE], "jd": []})},
}


def listed(binary, prop):
    """prints KNOWN-FINDING for listed inputs that still fail; gives those that fail and are not in the file"""
    file, res = known(prop), []
    for key, (req, f) in LISTED.get(prop, {}).items():
        o = execute(binary, [req])[0]
        if f["chk"] == "calm":
            o = {k: x for k, x in o.items() if k in ("r", "p")}
            f = dict(f, b=[0])
            if o["r"] == "ok":
                o.pop("p", None)
        bad, _ = judge(prop, "LibCases", [dict(f, o=o, op=req["op"])], part="-" + key)
        if bad and key in file:
            print(f"KNOWN-FINDING: property={prop} {file[key]}", flush=True)
        elif bad:
            res.append((key, {"property": prop, "request": req if len(json.dumps(req)) < 3000 else {"op": req["op"], "what": key}, "answer": o}))
    return res
