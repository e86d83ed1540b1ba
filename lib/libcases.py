"""The cases of each library property: what is asked of the executor and which judgement of spec/LibCases.tla applies."""
import json, math, random, struct
from gen import *
from common import *

N = 4 if THOROUGH else 1


class Cases:
    def __init__(self, seed):
        self.g = Gen(seed)
        self.r = self.g.r
        self.req, self.fields = [], []

    def add(self, req, chk, **f):
        self.req.append(req)
        f["chk"] = chk
        f["op"] = req["op"]
        self.fields.append(f)

    def dicts_for(self, v):
        """dictionaries for the text of a value: none, its own, one that lacks a symbol, a larger one, another, a single symbol"""
        t = text_of(v)
        r = self.r
        ds = [None]
        if t:
            ds.append(t)
            less = [c for c in t if c != r.choice(t)]
            if less:
                ds.append(less)
            ds.append(t + self.g.text() + [97])
        ds.append(self.g.text() or [98])
        ds.append([r.choice(t) if t else 99] * r.choice([1, 5]))
        return ds


def text_of(v):
    k, p = v
    if k in (1, 7, 12):
        return p
    if k == 8:
        return [x for a, b in p for x in a + text_of(b)]
    if k == 11:
        return [x for b in p for x in text_of(b)]
    return []


def stores(c, n):
    g, r = c.g, c.r
    out = []
    for i in range(n):
        m = r.random()
        if m < 0.5:
            e = g.entries(r.choice([0, 1, 2, 3, 5, 6, 7, 8, 9]), 2, r.random() < 0.3)
        elif m < 0.6:  # one kind only
            e = g.entries(r.randrange(1, 5), 1, True, [r.randrange(16)])
        elif m < 0.7:  # repetitive
            v = g.value(1)
            e = [[[ord(x) for x in f"key{j:03}"], v] for j in range(r.choice([7, 20, 40]))]
        elif m < 0.8:  # no text but keys, or hardly any
            e = [[[97] * (j + 1), g.value(1, False, [2, 4, 9, 10, 11])] for j in range(r.choice([1, 3, 8]))]
        elif m < 0.9:
            e = g.entries(r.randrange(1, 4), 0, True, [1, 2, 7, 12])
        else:
            e = g.entries(2, 0) + [[[0x10FFFF, 0x10FFFF], g.deep(r.choice([5, 20, 60]))]]
        out.append(e)
    return out


def special_stores(c):
    g = c.g
    A = [97]
    yield []
    yield [[[], [9, 0]]]
    yield [[[], [8, []]]]
    yield [[A, [11, []]]]
    for k in (8, 11):
        for n in list(range(0, 10)) + [238, 239, 240, 241, 255, 256, 257]:
            yield [[A, [k, [[[0x4E00 + i], [9, 0]] for i in range(n)] if k == 8 else [[3, i % 2] for i in range(n)]]]]
    for n in list(range(1, 11)) + [239, 240, 256]:
        yield [[[0x100 + i], [9, 0]] for i in range(n)]
    for t in ([98], [97], [97, 97, 97], [98, 99]):
        yield [[A, [1, t]]]
    yield [[A, [2, [i % 256 for i in range(1500)]]]]
    yield [[A, [2, [0] * 1500]]]
    yield [[A, [2, [(i * i * 7 + i // 3) % 256 for i in range(600)]]]]
    yield [[A, [1, [ord(x) for x in "abcabcabd" * 120]]]]
    yield [[[0x200 + i for i in range(400)], [1, [0x200 + i for i in range(400)]]]]
    yield [[A, g.deep(60, [9, 0])]]
    for k in range(16):
        for v in singles(g, k):
            yield [[A, v]]


def singles(g, k):
    """the boundary values of a kind"""
    T = lambda s: [ord(x) for x in s]
    if k == 0:
        return [[0, x] for x in (0, 1, 127, 128, 238, 239, 240, 255, 256, 0x7FF, 0x800, 0xD7FF, 0xE000, 0xFFFF, 0x10000, 0x10FFFE, 0x10FFFF)]
    if k == 1:
        return [[1, x] for x in ([], [0], T("a"), [0xD7FF], [0xE000], [0x10FFFF], [0x7F, 0x80, 0x7FF, 0x800, 0xFFFF, 0x10000], [97] * 239, [97] * 240, [0xE9] * 120, [0x20AC] * 80, [0x1F600] * 60, T("x") * 255 + T("y"))]
    if k == 2:
        return [[2, x] for x in ([], [0], [255], [1, 2], [7] * 255, [7] * 256, [7] * 300, list(range(239)), list(range(240)), list(range(256)), [1, 2] * 130)]
    if k == 3:
        return [[3, 0], [3, 1]]
    if k == 4:
        return [[4, g.typed(n)] for n in BOUNDARY[::7]] + [[4, num(x) + [t]] for t in I_BITS for x in (*rng_of(t), 0, 1)]
    if k == 5:
        ints = [num(0) + ["i8"], num(0) + ["u8"], num(5) + ["u8"], num(5) + ["i64"], num(-5) + ["i8"], num(2 ** 127) + ["u128"], num(-2 ** 127) + ["i128"], num(300) + ["i16"]]
        return [[5, [1, a, b]] for a in ints for b in ints[::2] + ints[1:2]] + [[5, [0, list(struct.pack("<d", a)), list(struct.pack("<d", b))]] for a in (0.0, -1.5, math.inf, math.nan) for b in (-0.0, 2.0)]
    if k == 6:
        return [[6, [y, 2, 28, 1, 2, 3, ns]] for y in (-262143, -257, -256, -240, -239, -1, 0, 1, 127, 128, 239, 240, 255, 256, 2024, 9999, 10000, 262142) for ns in (0, 999999999)] + \
            [[6, [2024, 2, 29, 23, 59, 59, 1999999999]], [6, [2023, 12, 31, 0, 0, 0, 1]], [6, [1, 1, 1, 0, 0, 0, 0]], [6, [2000, 2, 29, 0, 59, 59, 1000000000]]]
    if k == 7:
        return [[7, jtext(x)] for x in (None, True, 0, -1, 2 ** 64 - 1, -2 ** 63, 0.5, "", "a\"\\\n\u0001é", [], {}, [[]], {"a": [1, {"b": None}]}, {"JSON": 1}, [None] * 9)]
    if k == 9:
        return [[9, 0]]
    if k == 10:
        return [[10, list(struct.pack("<d", x))] for x in Gen.F64] + [[10, [1, 0, 0, 0, 0, 0, 0xF8, 0x7F]], [10, [1, 2, 3, 4, 5, 6, 7, 8]], [10, [0, 0, 0, 0, 0, 0, 0xF8, 0xFF]]]
    if k == 12:
        return [[12, T(x)] for x in TZS]
    if k == 13:
        return [[13, x] for x in ([0] * 4, [255] * 4, [127, 0, 0, 1], [1, 2, 3, 4])]
    if k == 14:
        return [[14, x] for x in ([0] * 8, [65535] * 8, [0, 0, 0, 0, 0, 0, 0, 1], [1, 256, 255, 65280, 5, 6, 7, 0xFE80])]
    if k == 15:
        return [[15, list(struct.pack("<f", x))] for x in (0.0, -0.0, 1.0, 0.1, 1e-45, 3.4028234e38, math.inf, -math.inf, math.nan)] + [[15, [1, 2, 3, 4]]]
    if k == 8:
        return [[8, []], [8, [[[], [9, 0]]]], [8, [[[97], [8, []]], [[98], [11, []]]]]]
    return [[11, []], [11, [[11, []], [8, []], [11, [[11, []]]]]], [11, [[k2, p] for kk in range(16) if kk not in (8, 11) for k2, p in singles(g, kk)[:1]]]]


def all_singles(g):
    return [v for k in range(16) for v in singles(g, k)]


def store_case(c, e, chk):
    w = want([8, e])[1]
    c.add({"op": "store", "v": e}, chk, want=w, nan=bool(is_nan([8, w])))


def large(c):
    """values whose counts, lengths and numbers of bits need more than sixteen bits (and ones just below)"""
    r = c.r
    out = [[11, [[9, 0]] * n] for n in (65535, 65536, 65537)] + [[11, [[3, i % 3 // 2] for i in range(70000)]]]
    out += [[8, [[[0x100 + i // 300, 0x100 + i % 300], [9, 0]] for i in range(n)]] for n in (65535, 65536, 66001)]
    out += [[1, [r.choice([97, 98, 0x4E00]) for _ in range(n)]] for n in (65535, 65536, 140001)]
    out += [[2, [r.getrandbits(8) for _ in range(n)]] for n in (65535, 65536, 70001)] + [[2, [7] * 66000 + [1]]]
    out.append([11, [[11, [[3, 1]] * 300]] * 250])
    a, b, t = 1, 1, []  # codes of up to nineteen bits
    for i in range(20):
        t += [97 + i] * a
        a, b = b, a + b
    out += [[1, t], [2, t]]
    return out


def C01(c):
    for e in list(special_stores(c)) + stores(c, 700 * N):
        store_case(c, e, "store")
    for v in large(c):
        store_case(c, v[1] if v[0] == 8 else [[[97], v], [[98], [3, 1]]], "store")
    for e in stores(c, 5):  # writes that start with something else
        for m in (b"SOURISDA", b"sourisdb", b"\0OURISDB", b"SOURISD", b"SOURIDSB", b" SOURISDB"):
            c.add({"op": "sdec", "b": list(m) + [0, 1, 0x80]}, "refused")
    c.add({"op": "sdec", "b": list(b"SOURISDB") + [0, 1, 0x80]}, "store.dec", want=[])
    for n in (100, 1000, 3000, 10000, 30000):
        c.add({"op": "nestedstore", "n": n}, "nested", n=n)


def values(c, n, big=0.2):
    g, r = c.g, c.r
    return all_singles(g) + [g.value(r.choice([0, 1, 2, 3]), r.random() < big) for _ in range(n)] + [g.deep(k) for k in (3, 10, 40, 60)]


def C02(c):
    for v in values(c, 500 * N):
        c.add({"op": "value", "v": v, "dicts": c.dicts_for(v)}, "value", want=want(v))
    for v in large(c):
        t = text_of(v)
        c.add({"op": "value", "v": v, "dicts": [None] + ([t] if t else [])}, "value", want=want(v))
    for n in (100, 126, 127, 128, 129, 300, 1000, 3000, 5000):
        for ks in (([8], [11], [8, 11], [11, 11, 8]) if n < 5000 else ([11],)):
            sp = [ks[i % len(ks)] for i in range(n)]
            c.add({"op": "deep", "spine": sp}, "deep", spine=sp)
    for _ in range(120 * N):
        vs = [c.g.value(c.r.choice([0, 1, 2])) for _ in range(c.r.randrange(0, 8))]
        d = c.r.choice(c.dicts_for([11, vs]))
        c.add({"op": "seq", "vs": vs, "d": d}, "seq", want=[want(v) for v in vs])


# bytes laid out by the specification's own writers: made by TLC (spec/WriterCases.tla), see libcheck.py
def style(c, dict=None):
    r = c.r
    return {"dict": dict or [], "str": r.choice(["code", "utf8"]), "len": r.choice(["short", "int"]), "pad": r.choice([-1, -1, 0, 1, 3, 15]), "comp": r.randrange(5), "sgn": r.randrange(2), "rev": r.random() < 0.5}


def writer_orders(c):
    """values and styles the specification is to write"""
    o = []
    for v in all_singles(c.g):
        t = text_of(v)
        st = style(c)
        if t and len(t) < 200 and c.r.random() < 0.6:
            st["dict"] = [c.r.choice([t, t + [97, 98, 98]])]
        o.append({"what": "value", "v": want(v), "w": st})
    # every kind in every style that matters to it
    for k in range(16):
        for ln in ("short", "int"):
            for pad in (-1, 0, 2, 15):
                for sgn in (0, 1):
                    for comp in range(5) if k == 2 else (0,):
                        v = c.g.value(1, k == 2, [k] if k not in (8, 11) else [k, 4, 1, 9])
                        t = text_of(v)
                        o.append({"what": "value", "v": want(v), "w": {"dict": [t + [65]] if t and c.r.random() < .5 else [], "str": "code", "len": ln, "pad": pad, "comp": comp, "sgn": sgn, "rev": sgn == 1}})
    for _ in range(150 * N):
        v = c.g.value(2)
        t = text_of(v)
        o.append({"what": "value", "v": want(v), "w": style(c, [t] if t and c.r.random() < .6 else None)})
    for e in list(special_stores(c))[:14] + stores(c, 60 * N):
        t = text_of([8, e])
        o.append({"what": "store", "v": want([8, e])[1], "w": style(c, [t] if t and c.r.random() < .7 else None), "comp": c.r.randrange(5)})
    for _ in range(60 * N):
        b = c.g.blob(True)
        o.append({"what": "blob", "v": b, "comp": c.r.randrange(5)})
    for b in ([], [0], [5] * 3, [1, 2] * 40, [9] * 600, list(range(256)), [1] * 14 + [2] * 15, [7] * 13, [3, 4] * 9):
        for comp in range(5):
            o.append({"what": "blob", "v": b, "comp": comp})
    for _ in range(25 * N):
        t = c.g.text(True) or [97]
        o.append({"what": "dict", "v": t[:300]})
    # texts only up to what TLC writes quickly
    return [x for x in o if len(json.dumps(x)) < 9000]


def C03(c):
    for v in all_singles(c.g) + values(c, 250 * N)[:: 1]:
        c.add({"op": "value", "v": v, "dicts": c.dicts_for(v)[:3]}, "value.read", want=want(v))
    for e in list(special_stores(c)) + stores(c, 200 * N):
        store_case(c, e, "store.read")
        if len(json.dumps(e)) < 9000:
            v = [8, e] if len(e) != 1 else e[0][1]
            c.add({"op": "value", "v": v, "dicts": [None]}, "value.read", want=want(v))
    for n in BOUNDARY:
        c.add({"op": "int", "v": c.g.typed(n)}, "int.layout", x=num(n))
    for _ in range(120 * N):
        b = c.g.blob(True)
        c.add({"op": "blob", "b": b}, "blob.read", b=b)
    for ss in range(3):
        for b in idec_bytes(c):
            c.add({"op": "idec", "b": b, "ss": ss}, "idec", b=b, ss=ss)


def idec_bytes(c):
    r = c.r
    out = [[x] for x in (0, 1, 127, 128, 200, 238, 239)]
    for n in range(1, 17):
        for m in ([0] * n, [255] * n, [0] * (n - 1) + [128], [255] * (n - 1) + [127], [1] + [0] * (n - 1), [200] + [255] * (n - 1), [r.getrandbits(8) for _ in range(n)]):
            out.append([239 + n] + m)
            out.append([239 + n] + m + [3, 4])
    return out


def prefixes(c, b, n):
    k = range(len(b)) if len(b) <= n else sorted({0, 1, 2, 8, 9, 10, len(b) - 1, len(b) - 2} | {c.r.randrange(len(b)) for _ in range(n)})
    return [b[:i] for i in k if i < len(b)]


def mutate(c, b):
    r = c.r
    b = list(b)
    for _ in range(r.choice([1, 1, 2, 3])):
        m = r.randrange(7)
        i = r.randrange(len(b)) if b else 0
        if m == 0 and b:
            b[i] ^= 1 << r.randrange(8)
        elif m == 1 and b:
            b[i] = r.choice([0, 1, 127, 128, 239, 240, 241, 243, 247, 248, 255, r.getrandbits(8)])
        elif m == 2:
            b.insert(i, r.getrandbits(8))
        elif m == 3 and b:
            del b[i]
        elif m == 4 and b:
            b = b[:i]
        elif m == 5 and b:
            b = b[:i] + b[i:] + b[i:]
        else:
            b = b[:i] + [r.choice([240, 243, 247, 255])] + [255] * r.choice([1, 4, 8, 16]) + b[i:]
        b = b[:3000]
    return b


# kind 5, 7 and 12 contents are decided by other libraries (JSON text, names of zones): read back, not compared
def calm(cs, op, b, **k):
    cs.add({"op": op, "b": b, **k}, "calm", b=b, prefix=False, c=k.get("c", 0))


def C04(c, corpus):
    """corpus: encodings the code itself wrote: (op, bytes, extra)"""
    r = c.r
    for op, b, k in corpus:
        if len(b) < 4000:
            for p in prefixes(c, b, 12 if len(b) > 60 else 60):
                c.add({"op": op, "b": p, **k}, "calm", b=p, prefix=True, c=k.get("c", 0))
        for _ in range(4 * N):
            if len(b) < 3000:
                m = mutate(c, b)
                c.add({"op": op, "b": m, **k}, "calm", b=m, prefix=False, c=k.get("c", 0))
    ops = [("vdec", {"d": None}), ("sdec", {}), ("bitsdec", {}), ("ddec", {"bytes": False}), ("ddec", {"bytes": True})] + [("bdec", {"c": x}) for x in range(4)] + [("idec", {"ss": x}) for x in range(3)]
    for op, k in ops:
        for n in range(0, 256):
            calm(c, op, [n], **k)
        for _ in range(100 * N):
            calm(c, op, [r.getrandbits(8) for _ in range(r.randrange(0, 40))], **k)
        for n in range(1, 17):  # claims of enormous lengths, with nothing behind them
            for f in (0, 1, 127, 128, 255):
                calm(c, op, [239 + n] + [255] * (n - 1) + [f], **k)
                calm(c, op, [239 + n] + [0] * (n - 1) + [f] + [0, 1, 2], **k)
    for n in range(256):
        for t in ([], [0], [1, 0], [255] * 20, [240, 255] * 9, [0] * 20, [243, 0, 0, 0, 8], [247] + [255] * 8, [243] + [255] * 3 + [127] + [9] * 8):
            calm(c, "vdec", [n] + t, d=None)
            calm(c, "vdec", [n] + t, d=[0, 98, 99])
    H = list(b"SOURISDB")
    for n in range(256):
        for t in ([], [0], [1, 0x80], [1, 0], [2, 0, 0x80], [3, 98, 0x82, 0x10], [247] + [255] * 8 + [1], [240, 1, 0x80], [2, 0, 1, 5, 1, 6, 8, 0x55]):
            calm(c, "sdec", H + [n] + t)
    for d in (1, 100, 255, 256, 257, 300, 2000, 100000):  # trees that only branch
        calm(c, "ddec", [0] * d, bytes=True)
        calm(c, "ddec", [0] * d, bytes=False)
        calm(c, "ddec", [0] * d + [5] * (d + 1), bytes=False)
        calm(c, "ddec", ([0, 1, 65] * d) + [1, 66], bytes=True)
    for n in (10, 1000, 3000):  # many levels, complete and cut off
        calm(c, "vdec", [0xB2] * n, d=None)
        calm(c, "vdec", [0xB2] * n + [0x90], d=None)
        calm(c, "vdec", [0x82, 0x10, 0] * n + [0x90], d=None)
    big = [255] * 2000
    calm(c, "bdec", big, c=2)
    calm(c, "bdec", [243, 0, 0, 0, 16, 5, 31, 65, 1, 0, 255, 255, 0], c=2)
    calm(c, "bdec", [241, 0xB8, 0x0B] + [255, 7] * 1500, c=1)


# the daemon's own blob schemes
def C05(c):
    g, r = c.g, c.r
    fixed = [[], [0], [255], [1, 1], [1, 2], list(range(256)), list(range(255, -1, -1)) * 2, [0] * 254, [0] * 255, [0] * 256, [0] * 257, [9] * 509, [9] * 510, [9] * 511, [1, 2] * 255,
             [1] * 255 + [2] * 255 + [1] * 255, [7] * 239, [7] * 240, [7] * 241, list(range(239)), list(range(240)), [ord(x) for x in "the quick brown fox " * 30], [0, 255] * 128 + [1]]
    fixed += [[a] * n + [b] * m for a, b in ((0, 1), (255, 0)) for n in (1, 3, 254, 255, 256) for m in (1, 2, 255)]
    fixed += [[r.getrandbits(8) for _ in range(n)] for n in range(0, 70)] + [[i % 3 for i in range(n)] for n in range(0, 70)]
    for b in fixed + [g.blob(True) for _ in range(500 * N)]:
        c.add({"op": "blob", "b": b}, "blob", b=b)
    for n in (1000, 4095, 4096, 10000, 65535, 65536, 65537, 100000) + ((1 << 20, 3 << 20) if THOROUGH else ()):
        for pat in ([0], [1, 2, 3], [r.getrandbits(8) for _ in range(64)], list(range(256)), [r.getrandbits(8) for _ in range(5000)], [0] * 300 + [1]):
            c.add({"op": "bigblob", "pat": pat, "n": n, "tail": [r.getrandbits(8) for _ in range(r.choice([0, 1, 5]))]}, "bigblob")


def C06(c):
    g, r = c.g, c.r
    T = lambda s: [ord(x) for x in s]
    fib = []
    a, b = 1, 1
    for i in range(14):
        fib += [65 + i] * a
        a, b = b, a + b
    pow2 = sum(([65 + i] * 2 ** i for i in range(9)), [])
    texts = [[], T("a"), T("aaaa"), T("ab"), T("aab"), T("abc"), T("abcdeabcdabcabaaaaaa"), list(range(97, 123)), [0], [0, 0, 1], [0x10FFFF], [0x10FFFF, 0], [0xD7FF, 0xE000], [238, 239, 240, 241], fib, pow2,
             [0x4E00 + i for i in range(300)], [0x100 + i // 2 for i in range(300)], T("the quick brown fox jumps over the lazy dog")]
    for _ in range(260 * N):
        n = r.choice([1, 2, 3, 5, 10, 30, 80])
        a = [g.char() for _ in range(r.choice([1, 2, 3, 4, 5, 6, 8, 12, 30]))]
        w = [r.choice([1, 1, 2, 3, 5, 50]) for _ in a]
        texts.append(r.choices(a, w, k=n))
    for t in texts:
        probes = [t, [], t[::-1], sorted(t), t + t[:1], t + [0x2603], [0x2603], t[:1] * 9, [x + 1 if x < 0xD000 else x for x in t]]
        c.add({"op": "dict", "text": t, "probes": probes}, "dict", text=t)
        # bytes are symbols too
        b = [x % 256 for x in t]
        c.add({"op": "dict8", "text": b, "miss": b[:2] + [r.getrandbits(8)]}, "dict8", text=b, miss=b[:2] + [])
    letters = [10, 32, 34, 39, 40, 41, 44, 45, 46, 58, 59, 63] + list(range(48, 58)) + list(range(65, 91)) + list(range(97, 123))
    for _ in range(25 * N):
        n = r.choice([1, 2, 10, 40])
        probes = [[], letters, letters[::-1], r.choices(letters, k=n), r.choices(letters, k=n) + [r.choice([0x2603, 0, 0xE9, 0x10FFFF, 128])], r.choices(range(128), k=n), [r.randrange(128)], [g.char() for _ in range(n)]]
        c.add({"op": "dict", "text": [], "english": True, "probes": probes}, "english")
    # long texts, by how often each symbol occurs: every number of bits a count can have
    for i in range(40 * N):
        k = r.choice([2, 3, 4, 5, 8, 12, 20])
        top = r.choice([8, 10, 12, 13, 14, 16, 17, 18])
        syms = r.sample(range(32, 2000), k)
        counts = [[x, r.randrange(1, 1 << r.randrange(1, top + 1))] for x in syms]
        if i % 3 == 0:
            counts = [[x, (1 << top) + r.choice([-1, 0, 1, 2]) + j * r.choice([0, 1, 1 << (top - 1)])] for j, x in enumerate(syms[:6])]
        c.add({"op": "dictc", "counts": counts, "step": r.choice([0, 1, 7])}, "dictc", counts=counts)
    # as deep as trees get: every count more than all the smaller ones together, or one for each pair of them
    for k in range(2, 21):
        a, b, fs = 1, 1, []
        for i in range(k + 2):
            fs.append([65 + i, a])
            a, b = b, a + b
        for counts in (fs, [[65 + i, 1 << i] for i in range(min(k, 19))]):
            if k > 12 or k % 3 == 0:
                counts = counts[::-1] if k % 2 else counts
                c.add({"op": "dictc", "counts": counts, "step": r.choice([0, 1, 7])}, "dictc", counts=counts)
    for i, (q, f) in enumerate(zip(c.req, c.fields)):
        if q["op"] == "dict8":
            f["miss"] = q["miss"]


def big_arg(n):
    return num(n), str(n)


def C07(c, histories):
    for h in histories:
        c.add({"op": "bits", "ops": h}, "bits", ops=h)
    r = c.r
    rb = lambda n: [r.getrandbits(1) for _ in range(n)]
    for _ in range(400 * N):
        h = []
        size = 0
        for _ in range(r.randrange(1, 40)):
            o = r.choice(["push"] * 6 + ["pop"] * 3 + ["many", "many", "new", "re", "re", "join", "from", "arr", "clear"])
            if o == "join" and size > 60:
                o = "pop"
            if o in ("push", "new"):
                h.append([o, r.getrandbits(1)])
                size += 1
            elif o in ("many", "arr", "join"):
                b = rb(r.choice([0, 1, 2, 7, 8, 9, 15, 16, 17, 30]))
                h.append([o, b])
                size = {"many": size + len(b), "arr": len(b), "join": 2 * size + len(b)}[o]
            elif o == "from":
                b = [r.getrandbits(8) for _ in range(r.randrange(0, 5))]
                h.append([o, b])
                size = 8 * len(b)
            elif o == "re":
                h.append([o, r.getrandbits(8)])
            else:
                h.append([o, 0])
                size = max(0, size - 1) if o == "pop" else 0
        c.add({"op": "bits", "ops": h}, "bits", ops=h)
    for n in range(0, 20):
        for _ in range(6):
            b = [n] + [r.getrandbits(8) for _ in range((n + 7) // 8 + r.randrange(0, 2))]
            c.add({"op": "bitsdec", "b": b}, "bits.dec", b=b)
    for n in (239, 240, 255, 256, 1911, 1912, 1913, 2040, 2048, 65535, 65536, 65537, 500_003):
        c.add({"op": "bigbits", "n": n, "k": 3}, "bigbits", n=n, k=3)
    if THOROUGH:
        for n in (2 ** 24 - 1, 2 ** 24, 2 ** 24 + 1, 2 ** 24 + 8, 2 ** 25 + 3, 2 ** 26 + 1):
            c.add({"op": "bigbits", "n": n, "k": 5}, "bigbits", n=n, k=5)
    else:
        c.add({"op": "bigbits", "n": 2 ** 24 + 1, "k": 5}, "bigbits", n=2 ** 24 + 1, k=5)


NAT64 = [0, 1, 2, 3, 4, 5, 6, 7, 9, 256, 2 ** 31, 2 ** 32, 2 ** 63 - 1, 2 ** 63, 2 ** 64 - 2, 2 ** 64 - 1]
INT64 = [x for x in NAT64 if x < 2 ** 63] + [-x for x in NAT64 if x <= 2 ** 63]


def C08(c, histories):
    for n, h in histories:
        c.add({"op": "cursor", "n": n, "ops": [[o, str(-x if neg else x)] for o, neg, x in h]}, "cursor", n=n, ops=[[o, num(-x if neg else x)] for o, neg, x in h])
    r = c.r
    for _ in range(700 * N):
        n = r.choice([0, 1, 2, 3, 5, 8, 30])
        h = []
        for _ in range(r.randrange(1, 30)):
            o = r.choice(["read", "peek", "fwd", "back", "set", "start", "end", "cur", "end", "cur", "read2", "read0", "peek3", "next", "next", "nth", "nth", "by2", "last", "rest", "peekrest"])
            a = r.choice(INT64 if o in ("end", "cur") else NAT64) if r.random() < 0.35 else r.randrange(0, n + 2) * (r.choice([1, -1]) if o == "cur" else -1 if o == "end" and r.random() < .8 else 1)
            if o in ("rest", "last") and r.random() < .7:
                o = "peekrest"
            h.append((o, a))
        c.add({"op": "cursor", "n": n, "ops": [[o, str(a)] for o, a in h]}, "cursor", n=n, ops=[[o, num(a)] for o, a in h])


def all_ints(c, extra):
    for n in BOUNDARY:
        for t in types_of(n):
            yield n, t
    for _ in range(extra):
        n = c.g.int_num()
        yield n, c.r.choice(types_of(n))


def C09(c):
    for n, t in all_ints(c, 600 * N):
        c.add({"op": "int", "v": num(n) + [t]}, "int.native", x=num(n))
    for ss in range(3):
        for b in idec_bytes(c):
            c.add({"op": "idec", "b": b, "ss": ss}, "idec.native", b=b, ss=ss)


def C10(c):
    g, r = c.g, c.r
    for i, (n, t) in enumerate(all_ints(c, 300 * N)):
        if i % 2 == 0 or THOROUGH:
            c.add({"op": "int", "v": num(n) + [t]}, "int.text", x=num(n))
    T = lambda s: [ord(x) for x in s]
    texts = [str(n) for n in BOUNDARY[::2]] + [str(2 ** 128), str(2 ** 128 - 1), str(-2 ** 127), str(-2 ** 127 - 1), "9" * 39, "9" * 60, "-" + "9" * 45, "007", "-007", "00", "-0", "0" * 50 + "1", "", "-", "--1", "1-", "1 ", " 1", "1.0", "1e5", "0x10", "abc", "1_000", "١", "½", "1\u0000", "\n1",
                                               "12a", "a12", "-a", "NaN", "- 1", "1,000", "−1"]
    for _ in range(200):
        s = str(g.int_num())
        texts.append(s)
        i = r.randrange(len(s) + 1)
        texts.append(s[:i] + r.choice(["x", " ", ".", "-", "é", "\u0660"]) + s[i:])
    for s in texts:
        if s[:1] == "+":
            continue
        c.add({"op": "iparse", "t": T(s)}, "parse", t=T(s))
    small = [0, 1, 2, 3, 7, 10, 127, 128, 255, 256, 65535, 2 ** 31 - 1, 2 ** 31, 2 ** 32, 2 ** 63 - 1, 2 ** 63, 2 ** 64 - 1, 2 ** 64, 2 ** 126, 2 ** 127 - 1, 2 ** 127, 2 ** 128 - 1]
    pairs = [(s * a, t * b) for a in small for b in small for s in (1, -1) for t in (1, -1)]
    r.shuffle(pairs)
    pairs = pairs[:900 * N] + [(g.int_num(), g.int_num()) for _ in range(700 * N)] + [(g.int_num(), r.choice([1, -1, 2, 3, 10, -7])) for _ in range(200)]
    for a, b in pairs:
        if not (-2 ** 127 <= a < 2 ** 128 and -2 ** 127 <= b < 2 ** 128):
            continue
        ta, tb = r.choice(types_of(a)), r.choice(types_of(b))
        c.add({"op": "arith", "a": num(a) + [ta], "b": num(b) + [tb], "ra": r.random() < .4, "rb": r.random() < .4}, "arith", a=num(a), b=num(b), ua=ta[0] == "u", ub=tb[0] == "u")
    for ss in range(3):
        for b in idec_bytes(c)[::2]:
            c.add({"op": "idec", "b": b, "ss": ss}, "idec.text", b=b, ss=ss)


def C11(c):
    g, r = c.g, c.r
    few = [0, 1, -1, 127, 128, 200, 239, 240, 255, 256, -128, -129, -256, -257, 65535, 65536, 2 ** 31, 2 ** 32 - 1, 2 ** 63, 2 ** 64 - 1, 2 ** 127 - 1, -2 ** 127, 2 ** 128 - 1, 2 ** 127]
    for n in few:
        ts = types_of(n)
        for a in ts:
            for b in r.sample(ts, min(4, len(ts))):
                for da, db in ((False, False), (True, False), (False, True), (True, True)):
                    c.add({"op": "ieq", "a": num(n) + [a, da], "b": num(n) + [b, db]}, "ieq", a=num(n), b=num(n))
    for n in few:
        for m in few + [n - 1, n + 256, -n, n * 256]:
            if -2 ** 127 <= m < 2 ** 128:
                c.add({"op": "ieq", "a": g.typed(n) + [r.random() < .5], "b": g.typed(m) + [r.random() < .5]}, "ieq", a=num(n), b=num(m))
    for _ in range(300 * N):
        n = g.int_num()
        m = n if r.random() < .7 else g.int_num()
        c.add({"op": "ieq", "a": g.typed(n) + [r.random() < .5], "b": g.typed(m) + [r.random() < .5]}, "ieq", a=num(n), b=num(m))
    vs = all_singles(g)
    pairs = []
    for v in vs:
        pairs.append((v, v))
        for _ in range(2):
            pairs.append((v, r.choice(vs)))
    # values that look alike
    alike = [[0, 97], [1, [97]], [4, num(97) + ["u8"]], [2, [97]], [7, [57, 55]], [10, list(struct.pack("<d", 97.0))], [15, list(struct.pack("<f", 97.0))], [11, [[4, num(97) + ["u8"]]]], [3, 0], [4, num(0) + ["u8"]], [4, num(0) + ["i64"]], [9, 0], [1, []], [2, []], [11, []], [8, []],
             [10, list(struct.pack("<d", 0.0))], [10, list(struct.pack("<d", -0.0))], [15, list(struct.pack("<f", 0.0))], [15, list(struct.pack("<f", -0.0))], [13, [0, 0, 0, 1]], [14, [0, 0, 0, 0, 0, 0, 0, 1]], [12, [85, 84, 67]], [1, [85, 84, 67]],
             [5, [0, [0] * 8, [0] * 8]], [5, [0, [0] * 7 + [128], [0] * 8]], [5, [1, num(0) + ["i8"], num(0) + ["u8"]]], [5, [1, num(0) + ["u8"], num(0) + ["u8"]]], [7, [91, 93]], [7, [34, 97, 34]], [7, [110, 117, 108, 108]], [10, list(struct.pack("<d", math.nan))], [15, list(struct.pack("<f", math.nan))]]
    alike += [[7, [ord(x) for x in t]] for t in ("0.0", "-0.0", "0", "1", "1.0", "[0.0,{\"a\":-0.0}]", "[-0.0,{\"a\":0.0}]", "{\"a\":1,\"b\":2.0}", "{\"a\":1,\"b\":2}")]
    pairs += [(a, b) for a in alike for b in alike]
    for _ in range(250 * N):
        v = g.value(2)
        pairs.append((v, retype(c, v)))
        w = change(c, v)
        pairs.append((v, w))
    for a, b in pairs:
        c.add({"op": "veq", "a": a, "b": b, "dec": r.random() < .4}, "veq", a=want(a), b=want(b), jd=texts_json(a) + texts_json(b))
    for _ in range(250 * N):
        e = g.entries(r.choice([0, 1, 2, 3, 5, 8, 20]), r.choice([0, 1]))
        e = [x for x in e if not is_nan(want(x[1]))]
        n = len(e)
        o1, o2 = list(range(n)), list(range(n))
        r.shuffle(o1)
        r.shuffle(o2)
        same = True
        if n and r.random() < .3:
            if r.random() < .5:
                o2.pop()
                same = False
            else:  # the same key with another value
                k, v = e[0]
                w = change(c, v)
                e.append([k, w])
                o2[o2.index(0)] = n
                same = eq(want(v), want(w))
        c.add({"op": "mapeq", "e": e, "o1": o1, "o2": o2}, "mapeq", same=same, jd=texts_json([8, e]))


def retype(c, v):
    """the same value from other native types"""
    k, p = v
    n = lambda x: c.g.typed((-1 if x[0] else 1) * sum(b << (8 * i) for i, b in enumerate(x[1])))
    if k == 4:
        return [4, n(p)]
    if k == 5 and p[0] == 1:
        return [5, [1, n(p[1]), n(p[2])]]
    if k == 8:
        return [8, [[a, retype(c, b)] for a, b in reversed(p)]]
    if k == 11:
        return [11, [retype(c, b) for b in p]]
    return v


def change(c, v):
    k, p = v
    if k in (8, 11) and p and c.r.random() < .8:
        i = c.r.randrange(len(p))
        q = list(p)
        if k == 8:
            q[i] = [p[i][0], change(c, p[i][1])] if c.r.random() < .7 else [p[i][0] + [120], p[i][1]]
        elif c.r.random() < .3:
            q = q[::-1]
        else:
            q[i] = change(c, p[i])
        return [k, sorted(q, key=lambda e: e[0]) if k == 8 else q]
    return c.g.value(0, kinds=[k] if k not in (8, 11) and c.r.random() < .8 else None)


def eq(a, b):  # only to know whether a changed entry really differs
    if a == b:
        return not is_nan(a)
    z = lambda b: not any(b[:-1]) and b[-1] in (0, 128)
    if a[0] == b[0] and a[0] in (10, 15):
        return z(a[1]) and z(b[1])
    if a[0] == b[0] == 7:
        d = lambda t: jconv(json.loads("".join(map(chr, t))))
        return eq_doc(d(a[1]), d(b[1]))
    if a[0] == b[0] == 5 and a[1][0] == b[1][0] == 0:
        return all(x == y or (z(x) and z(y)) for x, y in zip(a[1][1:], b[1][1:])) and not is_nan(a) and not is_nan(b)
    if a[0] == b[0] == 8:
        return len(a[1]) == len(b[1]) and all(x[0] == y[0] and eq(x[1], y[1]) for x, y in zip(a[1], b[1]))
    if a[0] == b[0] == 11:
        return len(a[1]) == len(b[1]) and all(eq(x, y) for x, y in zip(a[1], b[1]))
    return False


def eq_doc(a, b):
    if a[0] != b[0]:
        return False
    if a[0] == 3:
        return eq([10, a[1]], [10, b[1]])
    if a[0] == 5:
        return len(a[1]) == len(b[1]) and all(eq_doc(x, y) for x, y in zip(a[1], b[1]))
    if a[0] == 6:
        return len(a[1]) == len(b[1]) and all(x[0] == y[0] and eq_doc(x[1], y[1]) for x, y in zip(a[1], b[1]))
    return a == b


def C12(c):
    r = c.r
    d = lambda x: list(struct.pack("<d", x))
    f = lambda x: list(struct.pack("<f", x))
    nxt = lambda x, k: struct.unpack("<d", struct.pack("<q", struct.unpack("<q", struct.pack("<d", x))[0] + k))[0]
    nxf = lambda x, k: struct.unpack("<f", struct.pack("<i", struct.unpack("<i", struct.pack("<f", x))[0] + k))[0]
    xs = [0.0, -0.0, 0.5, -0.5, 0.1, math.pi, 1e-10, -1e-10, 5e-324, 1e-8, -1e-8, 1e-17, -1e-17, 5e-17, 2e-16, 2.3e-16, 5e-16, 5e-8, -5e-8, 1.1e-7, 1.3e-7, 3e-7, math.inf, -math.inf, math.nan, 1e300, -1e300, 1.5, -1.5, 2.0 ** 52 + 0.5, 2.0 ** 51 + 0.5, 4503599627370495.5, -4503599627370495.5, 1e15 + 0.125]
    for k in (0, 1, 2, 7, 8, 15, 16, 23, 24, 31, 32, 52, 53, 54, 62, 63, 64, 65, 100, 126, 127, 128, 129, 500, 1023):
        for s in (1, -1):
            x = s * 2.0 ** k
            xs += [x, nxt(x, 1), nxt(x, -1) if k > 1 else x, x + s * 0.5 if k < 51 else x, x - s, x + s]
    xs += [float(r.randrange(-10 ** 18, 10 ** 18)) for _ in range(200 * N)] + [r.uniform(-1e6, 1e6) for _ in range(100 * N)] + [r.choice([1, -1]) * math.ldexp(r.getrandbits(53) | 1, r.randrange(-60, 90)) for _ in range(400 * N)]
    for x in xs:
        if x == x and abs(x) != math.inf and abs(abs(x) - round(abs(x))) < 1e-15 and x != round(x) and round(abs(x)) != 0:
            continue  # just below a whole number: either answer would do
        c.add({"op": "f64", "b": d(x)}, "f64", b=d(x))
        try:
            b = f(x)
        except OverflowError:
            continue
        y = struct.unpack("<f", bytes(b))[0]
        if y == y and abs(y) != math.inf and abs(y - round(y)) < 3e-7 and y != round(y) and round(abs(y)) != 0:
            continue
        c.add({"op": "f32", "b": b}, "f32", b=b)
    for k in (0, 5, 23, 24, 63, 64, 126, 127):
        for s in (1, -1):
            for q in (0, 1, -1):
                if k > 1 or q >= 0:
                    b = f(nxf(s * 2.0 ** k, q))
                    c.add({"op": "f32", "b": b}, "f32", b=b)
    for b in (f(math.inf), f(-math.inf), f(math.nan), f(3.4028234e38), f(-3.4028234e38)):
        c.add({"op": "f32", "b": b}, "f32", b=b)
    parts = [0, 1, -1, 2, -2, 3, 4, 5, -12, 13, 100, -1000, 12345, 2 ** 31, -2 ** 31, 2 ** 53, 2 ** 63, 2 ** 64 - 1, -2 ** 63, -2 ** 100, 2 ** 127 - 1, 2 ** 127, 2 ** 127 + 2 ** 101, 2 ** 128 - 1, -2 ** 127]
    pairs = [(a, b) for a in parts for b in parts if -2 ** 127 <= a and -2 ** 127 <= b]
    pairs += [(r.randrange(-10 ** k, 10 ** k), r.randrange(-10 ** j, 10 ** j)) for k in (1, 2, 4, 9) for j in (1, 2, 4, 9) for _ in range(4 * N)]
    r.shuffle(pairs)
    for a, b in pairs[:330 * N] + [(0, 0), (0, 1), (0, -1), (1, 0), (-1, 0), (-1, -1), (1, -1), (-1, 1), (-5, 0), (0, 7), (2 ** 127, 0), (2 ** 127, 1), (1, 2 ** 127), (0, 2 ** 128 - 1), (2 ** 128 - 1, -2 ** 127), (-2 ** 127, 2 ** 128 - 1), (2 ** 64 - 1, 2 ** 63), (2 ** 127 + 2 ** 101, 2 ** 127)]:
        c.add({"op": "polar", "re": c.g.typed(a), "im": c.g.typed(b)}, "polar", re=num(a), im=num(b))
    # stored integers as floats: the nearest one
    tf = {x + q for k in (0, 1, 8, 16, 23, 24, 25, 31, 32, 52, 53, 54, 55, 62, 63, 64, 65, 77, 78, 90, 100, 103, 104, 126, 127, 128) for x in (2 ** k, -2 ** k, 2 ** k + 2 ** max(k - 24, 0), 2 ** k + 2 ** max(k - 53, 0), 3 * 2 ** max(k - 2, 0)) for q in (-1, 0, 1)}
    tf |= {2 ** 128 - 2 ** 103 + q for q in (-1, 0, 1)} | {2 ** 128 - 2 ** 104, 2 ** 128 - 2 ** 74, 2 ** 128 - 1} | {r.choice([1, -1]) * r.getrandbits(r.randrange(1, 129)) for _ in range(300 * N)}
    for x in sorted(tf):
        if -2 ** 127 <= x < 2 ** 128:
            for _ in range(2):
                c.add({"op": "tofloat", "v": c.g.typed(x)}, "tofloat", x=num(x))
    for m in (0.0, 1.0, -1.0, 5.0, 13.0, 1e6, 0.5, 1e18, 1e30, 2.0 ** 126, 1e39, 1e300, math.inf, math.nan, 5e-324):
        for a in (0.0, -0.0, math.pi / 2, -math.pi / 2, math.pi, -math.pi, math.pi / 4, math.atan(5 / 12), -math.atan(5 / 12), 1.0, 3.0, math.inf, math.nan):
            big = not (abs(m) < 1e38)
            must = a == 0 and m == m and abs(m) < 1e38 and m == int(m)
            if not math.isfinite(a) or not big or a == 0:
                c.add({"op": "cart", "m": d(m), "a": d(a)}, "cart", m=d(m), a=d(a), must=must)


def jsonable(v):
    """all floats finite (and, through text, exact) so that the export exists; used only to get a good share of such values"""
    return v


def nice(c, v):
    """the same shape with floats that text holds exactly"""
    r = c.r
    k, p = v
    fl = lambda: list(struct.pack("<d", r.choice([0.0, -0.0, 1.0, -1.0, 5.0, 0.5, -0.25, 0.1, 1e10, 123456.789, 2.0 ** 53, 1e15, r.randrange(-10 ** 9, 10 ** 9) / 64.0])))
    if k == 10:
        return [10, fl()]
    if k == 15:
        return [15, list(struct.pack("<f", r.choice([0.0, -0.0, 1.0, 0.5, -0.25, 0.125, 3.0, 1e10, 65504.0, r.randrange(-9999, 9999) / 8])))]
    if k == 5 and p[0] == 0:
        return [5, [0, fl(), fl()]]
    if k == 4:
        n = (-1 if p[0] else 1) * sum(b << (8 * i) for i, b in enumerate(p[1]))
        return [4, c.g.typed(n % 2 ** 64 if n >= 0 else -((-n) % 2 ** 63))]
    if k == 5:
        return [5, [1] + [nice(c, [4, x])[1] for x in p[1:]]]
    if k == 8:
        return [8, [[a, nice(c, b)] for a, b in p]]
    if k == 11:
        return [11, [nice(c, b) for b in p]]
    return v


def json_values(c, n):
    for v in all_singles(c.g):
        yield v
        yield nice(c, v)
    for _ in range(n):
        v = c.g.value(c.r.choice([0, 1, 2, 3]))
        yield nice(c, v) if c.r.random() < .8 else v


def texts_json(v):
    k, p = v
    if k == 7:
        return [[p, jconv(json.loads("".join(map(chr, p))))]]
    if k == 8:
        return sum((texts_json(b) for _, b in p), [])
    if k == 11:
        return sum((texts_json(b) for b in p), [])
    return []


def exact_in_text(v):
    """whether the JSON library reads its own text of every float in here back (the known exception)"""
    k, p = v
    if k in (10, 15):
        x = struct.unpack("<d" if k == 10 else "<f", bytes(p))[0]
        return not math.isfinite(x) or x == 0 or (1e-5 < abs(x) < 1e16 and len(repr(x).replace(".", "").replace("-", "").strip("0")) <= 15)
    if k == 5 and p[0] == 0:
        return exact_in_text([10, p[1]]) and exact_in_text([10, p[2]])
    if k == 8:
        return all(exact_in_text(b) for _, b in p)
    if k == 11:
        return all(exact_in_text(b) for b in p)
    return True


def C13(c):
    for v in json_values(c, 700 * N):
        if exact_in_text(v):
            c.add({"op": "json", "v": v}, "json.typed", want=want(v), jd=texts_json(v))
    for _ in range(250 * N):
        e = nice(c, [8, c.g.entries(c.r.choice([0, 1, 2, 3, 8]), 2)])[1]
        if exact_in_text([8, e]) and [x[0] for x in e] != [[74, 83, 79, 78]]:
            c.add({"op": "sjson", "v": e}, "sjson.typed", want=want([8, e])[1], jd=texts_json([8, e]))
    # things that look like annotations, but are not: text and nulls as the type
    for t in ([1, [54]], [9, 0], [3, 1], [11, []]):
        v = [8, [[[ord(x) for x in "souris_type"], t], [[116], [4, num(1) + ["u8"]]]]]
        c.add({"op": "json", "v": v}, "json.typed", want=want(v), jd=[])
    for v in [[11, [[14, [1, 2, 3, 4, 5, 6, 7, 8]]]], [8, [[[97], [11, [[6, [2020, 1, 2, 3, 4, 5, 600000000]]]]]]], c.g.deep(30, [12, [85, 84, 67]]), c.g.deep(30, [2, [1, 2]])]:
        c.add({"op": "json", "v": v}, "json.typed", want=want(v), jd=[])


def C14(c):
    for v in json_values(c, 500 * N):
        if exact_in_text(v):
            c.add({"op": "json", "v": v}, "json.plain", want=want(v), jd=texts_json(v))
    for bad in ([10, list(struct.pack("<d", math.nan))], [10, list(struct.pack("<d", math.inf))], [15, list(struct.pack("<f", -math.inf))], [15, list(struct.pack("<f", math.nan))], [4, num(2 ** 64) + ["u128"]], [4, num(-2 ** 63 - 1) + ["i128"]], [5, [1, num(0) + ["u8"], num(2 ** 64) + ["i128"]]], [5, [0, list(struct.pack("<d", 1.0)), list(struct.pack("<d", math.inf))]]):
        for d in (0, 1, 3):
            v = c.g.deep(d, bad)
            v = [11, [[9, 0], v, [1, [97]]]] if d else v
            c.add({"op": "json", "v": v}, "json.plain", want=want(v), jd=[])
    for good in ([4, num(2 ** 64 - 1) + ["u64"]], [4, num(-2 ** 63) + ["i64"]], [4, num(2 ** 63) + ["u128"]]):
        c.add({"op": "json", "v": good}, "json.plain", want=want(good), jd=[])
    for _ in range(150 * N):
        e = nice(c, [8, c.g.entries(c.r.choice([0, 1, 2, 3]), 2)])[1]
        if exact_in_text([8, e]) and [x[0] for x in e] != [[74, 83, 79, 78]]:
            c.add({"op": "sjson", "v": e}, "sjson.plain", want=want([8, e])[1], jd=texts_json([8, e]))
    docs = [{}, {"a": {}}, {"a": []}, {"": None}, {"a": 0, "b": -1, "c": 2 ** 64 - 1, "d": -2 ** 63, "e": 0.5}, {"a": [[[]]]}, {"JSON": 1, "x": 2}, {"a": {"JSON": [1]}}, {"souris": 1}, {"é": "\u0001\u001f\"\\/"}, {"a": [1, "a", None, True, {"b": []}]}]
    for _ in range(350 * N):
        d = c.g.jdoc(3)
        docs.append(d if isinstance(d, dict) and list(d) != ["JSON"] else {"k": d, "": c.g.jdoc(2)})
    for d in docs:
        t = [ord(x) for x in json.dumps(d, ensure_ascii=c.r.random() < .5, indent=c.r.choice([None, 1]))]
        c.add({"op": "jin", "t": t}, "json.in", doc=jconv(d))
        c.add({"op": "serde", "t": t}, "serde", doc=jconv(d))
    for _ in range(60 * N):
        c.add({"op": "struct", "u": [ord(x) for x in str(c.r.choice([0, 1, 2 ** 64 - 1, c.r.getrandbits(63)]))], "i": [ord(x) for x in str(c.r.choice([0, -1, -2 ** 63, 2 ** 63 - 1]))], "f": list(struct.pack("<d", c.r.choice([0.0, 0.5, -1.25, 100.0]))), "s": c.g.text(), "depth": c.r.randrange(0, 5)}, "struct")


def C15(c):
    for v in values(c, 500 * N):
        c.add({"op": "kinds", "v": v}, "kinds", want=want(v))


def C16(c):
    g, r = c.g, c.r
    vs = values(c, 350 * N)
    for n in (300, 3000):  # nothing is too long to be shown
        vs += [[11, [[4, num(i) + ["u16"]] for i in range(n)]], [2, [i % 251 for i in range(n)]], [2, [7] * n], [1, [97 + i % 26 for i in range(n)]], [1, [34, 92] * (n // 2)], [7, jtext({"a": list(range(n))})]]
    for n in (70, 300):
        vs.append([8, [[[ord(x) for x in f"k{i:03}"], [4, num(i) + ["u16"]]] for i in range(n)]])
    vs.append([8, [[[97] * n, [1, [98] * n]] for n in (1, 100, 400)]])
    for _ in range(60 * N):  # pairs of parts at the boundaries of all kinds of numbers
        vs.append([5, g.imaginary()] if r.random() < .6 else g.value(0, kinds=[4, 5, 6, 10, 14, 15]))
    for v in vs:
        v = tabular(c, v)
        c.add({"op": "show", "v": v}, "show", want=want(v))


def tabular(c, v, inside=False):
    """where it is in a table, characters have to be as wide as they are many; no blanks at the ends of keys"""
    k, p = v
    ascii_ = lambda t: [x if 32 <= x < 127 else 33 + x % 90 for x in t]
    if k == 8:
        e = {}
        for a, b in p:
            a = ascii_(a)
            while a and a[-1] == 32:
                a.pop()
            e[tuple(a)] = tabular(c, b, True)
        return [8, [[list(a), b] for a, b in sorted(e.items())]]
    if k == 11:
        # lists with tables in them are tables of their own
        return [11, [tabular(c, x, inside) for x in p]]
    if inside and k == 0 and p > 126:
        return [0, 32 + p % 90]
    if inside and k == 1:
        return [1, [x if x < 127 else 32 + x % 90 for x in p]]
    if inside and k == 7:
        return [7, jtext(json.loads("".join(chr(x if x < 127 else 97 + x % 26) for x in p)))]
    return v


def C17(c, encoded):
    """encoded: (what, bytes) of encodings"""
    r = c.r

    def take(what, b, want=None, breaks=False, bad=False, parts=1):
        c.add({"op": "take", "what": what, "b": b, "parts": parts, "breaks": breaks}, "take", what=what, b=[] if want is not None or breaks or bad else b, known=want is not None, want=want or [], breaks=breaks, bad=bad)
    for what, b, v in encoded:
        take(what, b, want=v, parts=r.choice([1, 1, 2, 3, 7, max(1, len(b))]))
        if len(b) > 1:
            take(what, b[:r.randrange(len(b))], bad=True, parts=r.choice([1, 2]))
        if r.random() < .3:
            take(what, b, breaks=True, parts=r.choice([1, 2, 5]))
        m = mutate(c, b)
        if what == "store" and m[:8] != b[:8]:
            take(what, m, bad=True)
        elif r.random() < .7 and len(m) < 1500 and no_other(v if what == "value" else [8, v]):
            take(what, m, parts=r.choice([1, 2]))
    for what in ("value", "store"):
        take(what, [], bad=True)
        take(what, [], breaks=True)
    for v in values(c, 150 * N):
        c.add({"op": "give", "what": "value", "v": v}, "give", what="value", want=want(v))
    for e in stores(c, 120 * N):
        c.add({"op": "give", "what": "store", "v": e}, "give", what="store", want=want([8, e])[1])
    for n in (2097152 - 300, 2097152 - 5, 2097152 - 4, 2097152 + 1, 3_000_000) + (() if N == 1 else (10_000_000,)):
        for what in ("value", "store"):
            c.add({"op": "size", "what": what, "n": n, "parts": r.choice([1, 40])}, "size", what=what)


def no_other(v):
    return v[0] not in (7, 12) and (v[0] not in (8, 11) or all(no_other(x[1] if v[0] == 8 else x) for x in v[1]))
