"""Inputs for the library. Chosen at random and at the boundaries; what should come of them is the specification's business."""
import json, random, struct

I_BITS = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "usize": 64, "u128": 128, "i8": 8, "i16": 16, "i32": 32, "i64": 64, "isize": 64, "i128": 128}
TZS = ["UTC", "GMT", "Europe/London", "America/Argentina/Buenos_Aires", "Etc/GMT+12", "Etc/GMT-14", "Asia/Kathmandu", "EST5EDT", "GMT0", "Pacific/Chatham", "Africa/Abidjan", "US/Pacific", "Zulu", "W-SU"]


def mag(n):
    n = abs(n)
    r = []
    while n:
        r.append(n & 255)
        n >>= 8
    return r


def num(n):
    return [1 if n < 0 else 0, mag(n)]


def rng_of(t):
    b = I_BITS[t]
    return (0, 2 ** b - 1) if t[0] == "u" else (-2 ** (b - 1), 2 ** (b - 1) - 1)


def types_of(n):
    return [t for t in I_BITS if rng_of(t)[0] <= n <= rng_of(t)[1]]


BOUNDARY = sorted({s * v for k in (0, 7, 8, 15, 16, 23, 24, 31, 32, 39, 40, 47, 48, 55, 56, 63, 64, 71, 72, 79, 95, 96, 103, 104, 119, 120, 126, 127, 128)
                   for v in (2 ** k - 1, 2 ** k, 2 ** k + 1, 2 ** k - 239 if k > 7 else 0, 2 ** k + 200) for s in (1, -1)
                   if -2 ** 127 <= s * v <= 2 ** 128 - 1} | set(range(-260, 260)) | {s * d for s in (1, -1) for d in (1000, 4095, 61423, 65535 - 239, 10 ** 9, 10 ** 18, 10 ** 19, 10 ** 38)})


class Gen:
    def __init__(self, seed):
        self.r = random.Random(seed)

    def int_num(self):
        r = self.r
        c = r.random()
        if c < 0.4:
            return r.choice(BOUNDARY)
        if c < 0.5:
            return r.randrange(-300, 300)
        k = r.randrange(1, 129)
        n = r.getrandbits(k)
        if r.random() < 0.5 and n <= 2 ** 127:
            n = -n
        return n

    def typed(self, n):
        return num(n) + [self.r.choice(types_of(n))]

    def integer(self):
        return self.typed(self.int_num())

    def char(self):
        r = self.r
        c = r.random()
        if c < 0.3:
            return r.choice([0, 1, 9, 10, 31, 32, 34, 92, 127, 128, 255, 256, 0x7FF, 0x800, 0xD7FF, 0xE000, 0xFFFD, 0xFFFF, 0x10000, 0x10FFFF, 238, 239, 240, 0x10FFFE, 237])
        if c < 0.8:
            return r.randrange(32, 127)
        while True:
            x = r.randrange(0, r.choice([0x250, 0x3000, 0x110000]))
            if not 0xD800 <= x <= 0xDFFF:
                return x

    def text(self, big=False):
        r = self.r
        c = r.random()
        if c < 0.08:
            return []
        if c < 0.16:
            return [self.char()] * r.choice([1, 2, 3, 8, 9, 17])
        if c < 0.5:
            return [ord(x) for x in " ".join(r.choice(["alpha", "beta", "rocks", "souris", "key", "Value", "the", "and", "42"]) for _ in range(r.randrange(1, 6)))]
        if c < 0.9 or not big:
            return [self.char() for _ in range(r.randrange(1, 20))]
        n = r.choice([100, 238, 239, 240, 241, 255, 256, 257, 300, 1000])
        a = [self.char() for _ in range(r.choice([1, 2, 3, 40, 300]))]
        return [r.choice(a) for _ in range(n)]

    def blob(self, big=False):
        r = self.r
        c = r.randrange(9)
        n = r.choice([0, 1, 2, 3, 4, 5, 7, 8, 9, 12, 13, 14, 15, 16, 17, 31, 64] + ([100, 238, 239, 240, 254, 255, 256, 257, 258, 300, 510, 511, 512, 700] if big else []))
        if c == 0:
            return [r.getrandbits(8) for _ in range(n)]
        if c == 1:
            return [r.getrandbits(8)] * n
        if c == 2:
            p = [r.getrandbits(8) for _ in range(r.randrange(1, 9))]
            return [p[i % len(p)] for i in range(n)]
        if c == 3:
            return [r.choice([0, 255]) for _ in range(n)]
        if c == 4:
            out = []
            while len(out) < n:
                out += [r.choice([0, 1, 2, 255])] * r.choice([1, 1, 2, 3, 254, 255, 256] if big else [1, 1, 2, 3, 20])
            return out[:n]
        if c == 5:
            return [ord(x) for x in ("the quick brown fox jumps over the lazy dog " * 20)[:n]]
        if c == 6:
            a = [r.getrandbits(8) for _ in range(3)]
            return [r.choices(a, [90, 9, 1])[0] for _ in range(n)]
        if c == 7:
            x = [r.getrandbits(8) for _ in range(n // 3)]
            return x + [r.getrandbits(8) for _ in range(n - 2 * len(x))] + x
        return [i % 256 for i in range(n)]

    F64 = [0.0, -0.0, 1.0, -1.0, 0.5, 1e300, -1e-300, 5e-324, 2.2250738585072014e-308, float("inf"), float("-inf"), float("nan"), 2.0 ** 53, 2.0 ** 127, -2.0 ** 127, 2.0 ** 128, 1.7976931348623157e308, 0.1, 3.141592653589793]

    def f64(self):
        r = self.r
        c = r.random()
        if c < 0.4:
            return list(struct.pack("<d", r.choice(self.F64)))
        if c < 0.6:
            return list(struct.pack("<d", r.randrange(-10 ** 6, 10 ** 6) / r.choice([1, 2, 4, 10, 100])))
        if c < 0.65:  # not a number, with a payload
            return list(struct.pack("<Q", (r.getrandbits(1) << 63) | (0x7FF << 52) | r.getrandbits(52)))
        return [r.getrandbits(8) for _ in range(8)]

    def f32(self):
        r = self.r
        c = r.random()
        if c < 0.4:
            return list(struct.pack("<f", r.choice([0.0, -0.0, 1.0, -1.0, 0.5, 1e-45, 1.1754944e-38, 3.4028234e38, float("inf"), float("-inf"), float("nan"), 2.0 ** 24, 2.0 ** 127, 0.1])))
        if c < 0.6:
            return list(struct.pack("<f", r.randrange(-10 ** 5, 10 ** 5) / r.choice([1, 2, 4, 8])))
        if c < 0.65:  # quiet, with a payload
            return list(struct.pack("<I", (r.getrandbits(1) << 31) | (0xFF << 23) | (1 << 22) | r.getrandbits(22)))
        b = [r.getrandbits(8) for _ in range(4)]
        if b[3] & 0x7F == 0x7F and b[2] & 0x80:
            b[2] |= 0x40
        return b

    def ts(self):
        r = self.r
        y = r.choice([0, 1, -1, 4, 239, 240, 255, 256, 999, 1000, 1900, 1970, 2000, 2024, 2023, 9999, 10000, -9999, -10000, -239, -240, -256, -257, 65535, 65536, 262142, -262143, -32768, 32767, -128, 127, r.randrange(-262143, 262143), r.randrange(1, 3000)])
        m = r.randrange(1, 13)
        leap = (y % 4 == 0 and y % 100 != 0) or y % 400 == 0
        dim = 30 if m in (4, 6, 9, 11) else (29 if leap else 28) if m == 2 else 31
        d = r.choice([1, dim, r.randrange(1, dim + 1)])
        s = r.choice([0, 59, r.randrange(60)])
        ns = r.choice([0, 1, 999, 1000, 123000, 10 ** 6, 5 * 10 ** 8, 999999999, 999999000, 999000000, r.randrange(10 ** 9), 239, 240] + ([10 ** 9, 1999999999, 1500000000] if s == 59 else []))
        return [y, m, d, r.choice([0, 23, r.randrange(24)]), r.choice([0, 59, r.randrange(60)]), s, ns]

    def imaginary(self):
        if self.r.random() < 0.4:
            return [0, self.f64(), self.f64()]
        return [1, self.integer(), self.integer()]

    # a JSON document, as Python; only floats that every JSON library reads back exactly
    def jdoc(self, depth=2, floats=True):
        r = self.r
        c = r.randrange(8 if depth else 6)
        if c == 0:
            return None
        if c == 1:
            return r.random() < 0.5
        if c == 2:
            n = r.choice([0, 1, -1, 2 ** 63 - 1, -2 ** 63, 2 ** 64 - 1, 2 ** 63, 255, 256, 239, 240, r.randrange(-10 ** 6, 10 ** 6), r.getrandbits(64)])
            return n
        if c == 3 and floats:
            return r.choice([0.5, -0.25, 1.5, 100.125, -3.75, 0.1, 123456.789, r.randrange(-10 ** 6, 10 ** 6) / 64.0])
        if c in (3, 4, 5):
            return "".join(map(chr, self.text()))
        if c == 6:
            return [self.jdoc(depth - 1, floats) for _ in range(r.choice([0, 1, 2, 3, 7]))]
        return {"".join(map(chr, self.text())): self.jdoc(depth - 1, floats) for _ in range(r.choice([0, 1, 2, 3]))}

    def value(self, depth=2, big=False, kinds=None, jd=None, nan=True):
        """(what to ask for, what it is): the first has native types in its numbers"""
        r = self.r
        ks = list(kinds or range(16))
        if depth <= 0:
            ks = [k for k in ks if k not in (8, 11)] or [9]
        k = r.choice(ks)
        if depth > 0 and r.random() < 0.15:
            k = r.choice([x for x in (8, 11) if x in ks] or [k])
        if k == 0:
            p = self.char()
        elif k == 1:
            p = self.text(big)
        elif k == 2:
            p = self.blob(big)
        elif k == 3:
            p = r.getrandbits(1)
        elif k == 4:
            p = self.integer()
        elif k == 5:
            p = self.imaginary()
        elif k == 6:
            p = self.ts()
        elif k == 7:
            d = self.jdoc()
            t = jtext(d)
            if jd is not None:
                jd.append([t, jconv(d)])
            p = t
        elif k in (8, 11):
            n = r.choice([0, 1, 1, 2, 2, 3, 3, 4, 5, 6, 7, 8, 9] + ([20, 60] if big else []))
            if depth >= 2 and n > 9:
                depth = 1
            if k == 8:
                e = {}
                for _ in range(n):
                    e[tuple(self.text())] = self.value(depth - 1, big and n < 9, kinds, jd, nan)
                p = [[list(a), b] for a, b in sorted(e.items())]
            else:
                p = [self.value(depth - 1, big and n < 9, kinds, jd, nan) for _ in range(n)]
        elif k == 9:
            p = 0
        elif k == 10:
            p = self.f64()
        elif k == 12:
            p = [ord(c) for c in r.choice(TZS)]
        elif k == 13:
            p = [r.choice([0, 1, 10, 127, 192, 255, r.getrandbits(8)]) for _ in range(4)]
        elif k == 14:
            p = [r.choice([0, 1, 255, 256, 0xFE80, 65535, r.getrandbits(16)]) for _ in range(8)]
        elif k == 15:
            p = self.f32()
        return [k, p]

    def entries(self, n, depth=2, big=False, kinds=None, jd=None):
        e = {}
        for _ in range(n):
            e[tuple(self.text(big))] = self.value(depth, big, kinds, jd)
        return [[list(a), b] for a, b in sorted(e.items())]

    def deep(self, n, leaf=None):
        v = leaf or self.value(0)
        for _ in range(n):
            v = [11, [v]] if self.r.random() < 0.5 else [8, [[self.text(), v]]]
        return v


def want(v):
    """the value itself: no native types, map entries in order"""
    k, p = v
    if k == 4:
        return [4, p[:2]]
    if k == 5 and p[0] == 1:
        return [5, [1, p[1][:2], p[2][:2]]]
    if k == 8:
        return [8, sorted([a, want(b)] for a, b in p)]
    if k == 11:
        return [11, [want(x) for x in p]]
    return v


def is_nan(v):
    k, p = v
    if k == 10:
        return (p[7] & 127) == 127 and (p[6] & 0xF0) == 0xF0 and (p[6] & 15 or any(p[:6]))
    if k == 15:
        return (p[3] & 127) == 127 and p[2] & 128 and (p[2] & 127 or any(p[:2]))
    if k == 5 and p[0] == 0:
        return is_nan([10, p[1]]) or is_nan([10, p[2]])
    if k == 8:
        return any(is_nan(b) for _, b in p)
    if k == 11:
        return any(is_nan(b) for b in p)
    return False


def jtext(d):
    return [ord(c) for c in json.dumps(d, ensure_ascii=False, sort_keys=True, separators=(",", ":"))]


def jconv(d):
    """a JSON document in the form of the specification"""
    if d is None:
        return [0, 0]
    if isinstance(d, bool):
        return [1, int(d)]
    if isinstance(d, int) and -2 ** 63 <= d < 2 ** 64:
        return [2, num(d)]
    if isinstance(d, (int, float)):
        return [3, list(struct.pack("<d", float(d)))]
    if isinstance(d, str):
        return [4, [ord(c) for c in d]]
    if isinstance(d, list):
        return [5, [jconv(x) for x in d]]
    return [6, [[[ord(c) for c in k], jconv(v)] for k, v in sorted(d.items())]]
