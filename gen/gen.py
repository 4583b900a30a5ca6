#!/usr/bin/env python3
"""Generates programs (sequences of API calls) for the conformance harness.

usage: gen.py PROFILE SEED COUNT REPO [TIER] > programs.ndjson

There is no oracle here: the programs only choose what to call with which arguments.  Profiles are
named after the properties.  All randomness comes from the seed.
"""
import json, math, os, random, re, sys

HERE = os.path.dirname(os.path.abspath(__file__))

# ---------------------------------------------------------------- numbers

NUMBER = r"(?<![\w.])(0x[0-9a-fA-F_]+|0b[01_]+|0o[0-7_]+|\d[\d_]*(?:\.\d[\d_]*)?(?:[eE][-+]?\d+)?)(?:_?[iu](?:8|16|32|64|size)|_?f(?:32|64))?"
NAMED = {"u8::MAX": 255, "i8::MAX": 127, "u16::MAX": 65535, "i16::MAX": 32767, "u8": 255, "i8": 127, "u16": 65535, "i16": 32767,
         "EPSILON": 2.0 ** -52, "PI": math.pi, "FRAC_PI_2": math.pi / 2, "FRAC_PI_4": math.pi / 4, "TAU": 2 * math.pi, "SQRT_2": 2 ** 0.5}


def number(s):
    s = s.replace("_", "")
    return float(int(s, 0)) if s[:2] in ("0x", "0b", "0o") else float(s)


def numbers(t):
    """The numbers in a source text: numerals, simple expressions of two of them, and a few names."""
    for m in re.finditer(NUMBER, t):
        yield number(m.group(1))
    for m in re.finditer(NUMBER + r"\s*(<<|\*|/|\+|-)\s*(?=" + NUMBER[len(r"(?<![\w.])"):] + ")", t):
        a, op, b = number(m.group(1)), m.group(2), number(m.group(3))
        if op == "<<":
            yield a * 2.0 ** min(b, 62)
        elif op != "/" or b:
            yield {"*": a * b, "/": a / (b or 1), "+": a + b, "-": a - b}[op]
    for m in re.finditer(NUMBER + r"\s*\.\s*pow[if]?\(\s*(-?\d+)", t):
        try:
            yield number(m.group(1)) ** int(m.group(2))
        except OverflowError:
            pass
    for m in re.finditer(r"\b(?:exp2|powi)\(\s*(-?\d+)", t):
        if abs(int(m.group(1))) < 200:
            yield 2.0 ** int(m.group(1))
    for name, x in NAMED.items():
        if re.search(r"\b" + name + r"\b", t):
            yield float(x)


def literals(repo):
    """Numeric literals of the sources.  Those which are not in the baseline list get more weight."""
    base = set()
    p = os.path.join(HERE, "literals.txt")
    if os.path.exists(p):
        base = set(open(p).read().split())
    found = set()
    d = os.path.join(repo, "src")
    for root, _, files in os.walk(d):
        for f in files:
            if f.endswith(".rs"):
                t = open(os.path.join(root, f), errors="replace").read()
                t = re.sub(r"//[^\n]*", "", t)
                for x in numbers(t):
                    if math.isfinite(x) and x != 0:
                        found.add(x)
    new = sorted(x for x in found if repr(x) not in base)
    return sorted(found), new


STATIC = (1, 2, 3, 4, 5, 8, 10, 16, 32, 70)     # numbers of rows that exist as constants


class G:
    """A source of random arguments."""

    big = 0

    def __init__(self, rnd, w, lits, new):
        self.r, self.w, self.lits, self.new = rnd, w, lits, new
        self.large = 0      # the next number of rows
        self.magmax = 1e6 if w == "f64" else 1e3

    def lit(self):
        r = self.r
        x = r.choice(self.new) if self.new and r.random() < 0.7 else r.choice(self.lits)
        k = r.randrange(8)
        if k == 0:
            x = x * (1 + 2.0 ** -r.randrange(8, 40))
        elif k == 1:
            x = x * (1 - 2.0 ** -r.randrange(8, 40))
        elif k == 2:
            x = x * r.uniform(0.3, 3)
        elif k == 3:
            x = 1 / x
        elif k == 4:
            x = x * r.uniform(0.99, 1.01)
        lim = 1e12 if self.w == "f64" else 1e5
        if not (1 / lim < abs(x) < lim):
            x = 1.0
        return x if r.random() < 0.6 else -x

    def num(self, scale=None):
        """any ordinary number"""
        r = self.r
        k = r.random()
        if scale is None:
            scale = 10 ** r.uniform(-1.5, 3)
        if k < 0.08:
            return 0.0
        if k < 0.25:
            return float(r.randrange(-9, 10))
        if k < 0.33:
            return r.randrange(-40, 41) / 8
        if k < 0.38 or self.new and k < 0.4:
            return self.lit()
        if k < 0.42:
            return self.mag()
        if k < 0.46:
            return r.choice([-1.0, 1.0]) * 2.0 ** r.randrange(-12, 13)
        if k < 0.49:
            return self.almost(r.randrange(-9, 10))
        return r.uniform(-scale, scale)

    def almost(self, x):
        """a number close to x"""
        return x + self.r.choice([1.0, -1.0]) * 10 ** self.r.uniform(-11 if self.w == "f64" else -5, -2)

    def mag(self, lo=None, hi=None):
        """log-uniform magnitude"""
        r = self.r
        if self.w == "f64":
            b = 12 if r.random() < 0.8 else 36
        else:
            b = 6 if r.random() < 0.8 else 12
        return r.choice([-1.0, 1.0]) * 2.0 ** r.uniform(-b if lo is None else lo, b if hi is None else hi)

    def pos(self, lo, hi):
        return 10 ** self.r.uniform(math.log10(lo), math.log10(hi))

    def vec(self, scale=None):
        r = self.r
        k = r.random()
        if k < 0.06:
            return [0.0, 0.0, 0.0]
        if k < 0.15:
            v = [0.0, 0.0, 0.0]
            v[r.randrange(3)] = self.nz()
            return v
        if k < 0.24:
            v = [self.num(scale) for _ in range(3)]
            v[r.randrange(3)] = 0.0
            return v
        if k < 0.33:
            s = abs(self.mag())
            return [r.gauss(0, s) for _ in range(3)]
        if k < 0.4:
            a, b = self.num(scale), self.num(scale)
            v = [a, r.choice([a, a, -a]), r.choice([a, b, b])]
            r.shuffle(v)
            return v
        if scale is None:
            scale = 10 ** r.uniform(-1, 2.5)
        return [self.num(scale) for _ in range(3)]

    def nz(self):
        while True:
            x = self.num()
            if x != 0:
                return x

    def nzvec(self, scale=None):
        while True:
            v = self.vec(scale)
            if any(v):
                return v

    def quat(self):
        r = self.r
        k = r.randrange(16)
        s = r.choice([1.0, -1.0])
        if k == 0:
            return [s, 0.0, 0.0, 0.0]
        if k == 1:                      # 180 degrees about an axis
            v = [0.0, 0.0, 0.0]
            v[r.randrange(3)] = s
            return [0.0] + v
        if k == 2:                      # 90 degrees about an axis
            v = [0.0, 0.0, 0.0]
            v[r.randrange(3)] = s
            return [r.choice([1.0, -1.0])] + v
        if k == 3:                      # permutations of the axes
            return [r.choice([1.0, -1.0]) for _ in range(4)]
        if k == 4:                      # 180 degrees about any axis
            return [0.0] + [r.gauss(0, 1) for _ in range(3)]
        if k == 5:                      # close to the identity
            e = 10 ** r.uniform(-9 if self.w == "f64" else -3, -1)
            return [s] + [r.gauss(0, e) for _ in range(3)]
        if k == 6:                      # close to 180 degrees
            e = 10 ** r.uniform(-9 if self.w == "f64" else -3, -1)
            return [r.gauss(0, e)] + [r.gauss(0, 1) for _ in range(3)]
        if k == 7:
            while True:
                q = [float(r.randrange(-3, 4)) for _ in range(4)]
                if any(q):
                    return q
        if k == 8:                      # rotation about one axis
            a = r.uniform(-math.pi, math.pi) if r.random() < 0.8 else self.lit()
            v = [0.0, 0.0, 0.0]
            v[r.randrange(3)] = math.sin(a / 2)
            return [math.cos(a / 2)] + v
        if k == 9:                      # negative real part
            q = [r.gauss(0, 1) for _ in range(4)]
            q[0] = -abs(q[0]) - 0.01
            return q
        return [r.gauss(0, 1) for _ in range(4)]

    def center(self):
        r = self.r
        k = r.random()
        if k < 0.1:
            return [0.0, 0.0, 0.0]
        if k < 0.2:
            v = [0.0, 0.0, 0.0]
            v[r.randrange(3)] = self.nz()
            return v
        if k < 0.35:
            return [float(r.randrange(-9, 10)) for _ in range(3)]
        if k < 0.5:
            s = self.pos(10, self.magmax)
            return [r.uniform(-s, s) for _ in range(3)]
        if k < 0.6:
            s = self.pos(1e-4, 1)
            return [r.uniform(-s, s) for _ in range(3)]
        return self.vec()

    def count(self, small=False):
        r = self.r
        if self.large:
            n, self.large = self.large, 0
            return n
        k = r.random()
        if small or k < 0.75:
            return r.choice([1, 1, 2, 3, 3, 4, 5])
        if k < 0.8:
            return 0
        if k < 0.93:
            return r.choice([6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 16, 17])
        if k < 0.975:
            return r.choice([18, 20, 24, 31, 32, 33, 40, 48, 63, 64, 65, 70, 70])
        if k < 0.98:
            return r.choice([96, 100, 101, 127, 128, 129, 200, 255, 256, 257])
        return self.newcount(130)

    def newcount(self, lim):
        """a number of rows near a literal of the sources"""
        if self.new:
            lim = max(lim, 2100)
        xs = [int(x) for x in (self.new or self.lits) if x == int(x) and 0 <= x <= lim]
        if self.new:
            xs += [2 ** x for x in xs if 3 <= x <= 11]
        c = [x + d for x in xs for d in (-1, 0, 1) if x + d >= 0]
        n = self.r.choice(c) if c else 5
        if n > 300:                      # a few of them will do
            G.big += n
            if G.big > 30000:
                return 5
        return n

    def largecount(self):
        """many rows: beyond what a block or a table of an implementation may hold"""
        r = self.r
        xs = [int(x) for x in self.new if x == int(x) and 250 < x <= 5000]
        xs += [2 ** int(x) for x in self.new if x == int(x) and 8 <= x <= 12]
        if xs and r.random() < 0.6:
            return r.choice(xs) + r.choice([0, 1, 1, 2, 17])
        return r.choice([257, 300, 513, 600, 1025, 1100, 1300])

    def lay(self, n):
        r = self.r
        k = r.random()
        if k < 0.4:
            return "d"
        if k < 0.6:
            return "v"
        return "s" if n in STATIC else "d"

    # ---- cameras
    def persp(self):
        r = self.r
        k = r.random()
        if k < 0.15:
            f = float(r.choice([1, 2, 100, 500, 1000, 1024]))
            p = [f, f, 0.0, float(r.choice([0, 320, 640])), float(r.choice([0, 240, 480]))]
        elif k < 0.3:
            p = [self.num() for _ in range(5)]
        else:
            f = self.pos(50, 5000)
            p = [f, f * r.uniform(0.5, 2), 0.0, r.uniform(-200, 2000), r.uniform(-200, 2000)]
        k = r.random()
        if k < 0.5:
            p[2] = r.choice([r.uniform(-20, 20), r.uniform(-1, 1), float(r.randrange(-5, 6)), self.mag(), r.uniform(-500, 500)])
        elif k < 0.6:
            p[2] = r.choice([1.0, -1.0]) * self.pos(1e-9, 1e-2)
        if r.random() < 0.12:
            p[r.randrange(2)] *= -1
        if r.random() < 0.05:
            p[r.randrange(5)] = self.lit()
        for i in (0, 1):
            while p[i] == 0:
                p[i] = self.num()
        return p

    def ortho(self):
        r = self.r
        if r.random() < 0.3:
            p = [self.num() for _ in range(4)]
        else:
            s = self.pos(0.01, 500)
            p = [s, s * r.uniform(0.3, 3), r.uniform(-200, 2000), r.uniform(-200, 2000)]
        if r.random() < 0.15:
            p[1] = p[0]
        if r.random() < 0.05:
            p[3] = p[2]
        if r.random() < 0.15:
            p[r.randrange(2)] *= -1
        if r.random() < 0.05:
            p[r.randrange(4)] = self.lit()
        for i in (0, 1):
            while p[i] == 0:
                p[i] = self.num()
        return p

    def cust(self):
        r = self.r
        return [r.uniform(-3, 3), r.uniform(-3, 3), r.choice([0.0, r.uniform(-0.2, 0.2), 0.5, -0.25])]

    def cpoint(self, f=None):
        """a point in camera coordinates"""
        r = self.r
        k = r.random()
        if k < 0.15:
            return self.vec()
        z = self.pos(0.05, 1000)
        if r.random() < 0.3:
            z = -z
        a = r.choice([0.2, 1, 5])
        x, y = r.uniform(-a, a) * z, r.uniform(-a, a) * z
        k = r.random()
        if k < 0.05:
            x = 0.0
        elif k < 0.1:
            y = 0.0
        elif k < 0.14:
            x = y = 0.0
        elif k < 0.18:
            z = 1.0
        elif k < 0.22:
            x, y, z = float(round(x)), float(round(y)), float(round(z)) or 1.0
        return [x, y, z]

    def pixel(self, p=None):
        r = self.r
        k = r.random()
        if p is not None and k < 0.08:
            return [p[-2], p[-1]]                      # the principal point
        if p is not None and k < 0.12:
            return [p[-2], r.uniform(0, 1000)]
        if p is not None and k < 0.16:
            return [r.uniform(0, 1000), p[-1]]
        if k < 0.2:
            u = self.num(1000) if r.random() < 0.5 else float(r.randrange(0, 961))
            return [u, r.choice([u, u, -u])]
        if k < 0.3:
            return [float(r.randrange(0, 1281)), float(r.randrange(0, 961))]
        if k < 0.4:
            return [r.randrange(0, 2561) / 2, r.randrange(0, 1921) / 2]
        if k < 0.5:
            return [self.num(), self.num()]
        if k < 0.6:
            s = self.pos(1e3, 1e5)
            return [r.uniform(-s, s), r.uniform(-s, s)]
        if k < 0.66:
            return [self.almost(r.choice([r.randrange(0, 1281), p[-2] if p else 0.0])), self.almost(r.choice([r.randrange(0, 961), p[-1] if p else 0.5]))]
        return [r.uniform(0, 1280), r.uniform(0, 960)]

    def custpixel(self):
        r = self.r
        return [r.uniform(-4, 4), r.uniform(-4, 4)]


def rotm(q):
    n = math.sqrt(sum(x * x for x in q))
    w, x, y, z = [a / n for a in q]
    return [[1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y)],
            [2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x)],
            [2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y)]]


def mv(m, v):
    return [sum(m[i][j] * v[j] for j in range(3)) for i in range(3)]


def tr(m):
    return [[m[j][i] for j in range(3)] for i in range(3)]


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def dot(a, b):
    return sum(x * y for x, y in zip(a, b))


def unit(a):
    n = math.sqrt(dot(a, a))
    return [x / n for x in a]


def S(x):
    """numeral"""
    if isinstance(x, (list, tuple)):
        return [S(y) for y in x]
    if isinstance(x, str):
        return x
    if isinstance(x, float):
        if math.isnan(x):
            return "nan"
        if math.isinf(x):
            return "inf" if x > 0 else "-inf"
        m, e = math.frexp(x)
        return f"{int(m * 2 ** 53)}@{e - 53}"
    return str(x)


class Prog:
    """Builds one program.  Keeps an approximate idea of what the registers hold, to choose sensible
    arguments."""

    def __init__(self, g, memo=False, adv=False):
        self.g, self.code, self.n, self.memo, self.adv = g, [], 0, memo, adv
        self.info = {}
        self.wide = 0       # the number of rows of its tables, if they are very long

    def op(self, name, out=True, **kw):
        ins = {"op": name}
        ins.update(kw)
        if out:
            self.n += 1
            ins["o"] = self.n
        self.code.append(ins)
        return self.n if out else None

    # ---- poses: info = (rotation matrix, center)
    def extr(self, how=None):
        g, r = self.g, self.g.r
        how = how or r.choice(["rc", "rc", "rc", "pose", "pose", "view", "view", "repose", "rerc"])
        if how in ("repose", "rerc"):
            e = self.extr(r.choice(["rc", "pose", "view"]))
            k = self.op("extr_" + how, e=e)
            self.info[k] = self.info[e]
            return k
        if how == "view":
            return self.view()
        q = g.quat()
        v = g.center()
        if r.random() < 0.12:
            # special in both parts
            k = r.randrange(4)
            u = [0.0, 0.0, 0.0]
            u[r.randrange(3)] = r.choice([1.0, -1.0])
            a = 10 ** r.uniform(-9 if g.w == "f64" else -3, -1)
            q = [[1.0, 0.0, 0.0, 0.0], [0.0] + u, [1.0] + u, [math.cos(a)] + [math.sin(a) * x for x in r.choice([u, unit(g.nzvec())])]][k]
            v = r.choice([[0.0] * 3, [0.0] * 3, [x * g.pos(0.01, 100) for x in u], [float(r.randrange(-2, 3)) for _ in range(3)]])
        m = rotm(q)
        if how == "rc":
            k = self.op("extr_rc", q=S(q), c=S(v))
            self.info[k] = (m, v)
        else:
            k = self.op("extr_pose", q=S(q), t=S(v))
            self.info[k] = (m, [-x for x in mv(tr(m), v)])
        return k

    def view(self):
        g, r = self.g, self.g.r
        c = g.center()
        while True:
            k = r.random()
            s = abs(g.mag()) if k < 0.3 else 10 ** r.uniform(-1, 2)
            if k < 0.25:
                d = [0.0, 0.0, 0.0]
                d[r.randrange(3)] = r.choice([1.0, -1.0]) * s
            elif k < 0.35:
                d = [float(r.randrange(-2, 3)) for _ in range(3)]
            else:
                d = [r.gauss(0, s) for _ in range(3)]
            lim = 1e-5 if g.w == "f64" else 0.1
            l = [c[i] + d[i] for i in range(3)]
            k = r.random()
            if k < 0.15:
                l = [0.0, 0.0, 0.0]
            elif k < 0.22:
                l = [x * 10 ** r.uniform(-9, -2) for x in d]    # a target much closer to the origin than the center,
            elif k < 0.29:
                c = [x * 10 ** r.uniform(-9, -2) for x in d]    # or a center much closer than the target
                r.shuffle(c)
            dd = [l[i] - c[i] for i in range(3)]
            if any(dd) and math.sqrt(dot(dd, dd)) > lim * (sum(map(abs, c)) + sum(map(abs, l))):
                break
        d = unit(dd)
        while True:
            k = r.random()
            if k < 0.3:
                u = [0.0, 0.0, 0.0]
                u[r.randrange(3)] = r.choice([1.0, -1.0])
            elif k < 0.4:
                e = 10 ** r.uniform(-3 if g.w == "f64" else -1, 0)
                p = cross(d, [r.gauss(0, 1) for _ in range(3)])
                s = r.choice([1, -1])
                u = [s * d[i] + e * p[i] for i in range(3)]
            elif k < 0.5:
                u = [float(r.randrange(-2, 3)) for _ in range(3)]
            else:
                u = [r.gauss(0, 1) for _ in range(3)]
            if any(u) and dot(cross(d, unit(u)), cross(d, unit(u))) > (1e-8 if g.w == "f64" else 1e-3):
                break
        u = unit(u)
        right = unit(cross(d, u))
        m = [right, cross(d, right), d]
        k = self.op("extr_view", c=S(c), l=S(l), up=S(u))
        self.info[k] = (m, c)
        return k

    def intr(self, kind=None):
        g, r = self.g, self.g.r
        kind = kind or r.choice(["persp", "persp", "persp", "ortho", "custx", "custy"])
        p = {"persp": g.persp, "ortho": g.ortho}.get(kind, g.cust)()
        if kind == "persp" and r.random() < 0.1:
            m = [p[0], p[2], p[3], 0.0, 0.0, p[1], p[4], 0.0, 0.0, 0.0, 1.0, 0.0]
            k = self.op("norm34", m=S(m))
        else:
            k = self.op(kind, p=S(p))
        self.info[k] = (kind, p)
        return k

    def cam(self, kind=None, i=None, e=None):
        i = self.intr(kind) if i is None else i
        e = self.extr() if e is None else e
        k = self.op("cam", i=i, e=e)
        self.info[k] = (self.info[i], self.info[e])
        return k

    def world(self, e, x):
        m, c = e
        v = mv(tr(m), x)
        return [v[j] + c[j] for j in range(3)]

    def cpoints(self, n, kind="persp"):
        g = self.g
        if kind in ("custx", "custy"):
            r = g.r
            out = []
            for _ in range(n):
                z = g.pos(0.3, 30) * r.choice([1, 1, 1, -1])
                a = 2 if kind == "custx" else 1
                s = z if kind == "custx" else 3
                out.append([r.uniform(-a, a) * s, r.uniform(-a, a) * s, z])
            return out
        return [g.cpoint() for _ in range(n)]

    def pts(self, rows, lay=None):
        return self.op("pts", rows=S(rows), lay=lay or self.g.lay(len(rows)))

    def pix(self, rows, lay=None):
        return self.op("pix", rows=S(rows), lay=lay or self.g.lay(len(rows)))

    def wpoints(self, camk, n):
        (kind, p), e = self.info[camk]
        rows = self.cpoints(n, kind)
        rows = [self.world(e, x) if self.g.r.random() < 0.9 else self.g.vec() for x in rows]
        return rows

    def pixels(self, kind, p, n):
        g = self.g
        if kind in ("custx", "custy"):
            return [g.custpixel() for _ in range(n)]
        return [g.pixel(p) for _ in range(n)]

    def dist(self):
        g, r = self.g, self.g.r
        k = r.random()
        if k < 0.1:
            return 0.0
        if k < 0.25:
            return 1.0
        if k < 0.35:
            return -g.pos(0.01, 1000)
        if k < 0.45:
            return g.mag()
        if k < 0.5:
            return g.lit()
        return g.pos(0.01, 1000)

    def bundle(self, n=None, kinds=("so", "sd", "pso", "psd", "p2c", "p2w", "r2w"), fr=None):
        g, r = self.g, self.g.r
        n = g.count() if n is None else n
        kind = r.choice(kinds)
        fr = fr or r.choice("wc")
        if kind in ("so", "sd", "pso", "psd"):
            so = kind in ("so", "pso")
            rows = [g.nzvec() if so else g.vec() for _ in range(n)]
            if r.random() < 0.2:
                rows = [unit(x) if any(x) else x for x in rows]
            if so and r.random() < 0.15:
                e = 10 ** r.uniform(-9 if g.w == "f64" else -4, -2)
                rows = [[y * (1 + r.uniform(-e, e)) for y in unit(x)] for x in rows]
            if so and r.random() < 0.15:
                b = r.choice([20, 45, 100] if g.w == "f64" else [10, 20])
                rows = [[y * f for y in unit(x)] if any(x) else x for x in rows for f in (g.mag(-b, b),)]
            if kind == "so":
                return self.op("bso", fr=fr, rows=S(rows), lay=g.lay(n))
            if kind == "sd":
                return self.op("bsd", fr=fr, rows=S(rows), lay=g.lay(n))
            return self.op("bpose", so=so, fr=fr, rows=S(rows), lay=g.lay(n), q=S(g.quat()), t=S(g.center()))
        if kind in ("p2c", "r2w"):
            i = self.intr()
            ik, p = self.info[i]
            x = self.pix(self.pixels(ik, p, n))
            b = self.op("p2c", i=i, x=x)
            if kind == "r2w":
                b = self.op("r2w", e=self.extr(), b=b)
            return b
        c = self.cam()
        (ik, p), _ = self.info[c]
        x = self.pix(self.pixels(ik, p, n))
        return self.op("p2w", cam=c, x=x)

    def done(self, pid):
        p = {"id": pid, "w": self.g.w, "memo": self.memo, "adv": self.adv, "code": self.code}
        if self.wide:
            p["wide"] = self.wide
        return p


# ---------------------------------------------------------------- scenarios

def s_persp(P):
    """C01, C02: perspective projection and back-projection"""
    g, r = P.g, P.g.r
    for _ in range(r.randrange(1, 4)):
        i = P.intr("persp")
        kind, p = P.info[i]
        for _ in range(r.randrange(1, 3)):
            P.op("c2p", i=i, x=P.pts(P.cpoints(g.count())))
        n = g.count()
        x = P.pix(P.pixels(kind, p, n))
        b = P.op("p2c", i=i, x=x)
        y = P.op("por", b=b)
        P.op("c2p", i=i, x=y)
        y = P.op("pord", b=b, d=S(P.dist()))
        P.op("c2p", i=i, x=y)


def s_ortho(P):
    g, r = P.g, P.g.r
    for _ in range(r.randrange(1, 4)):
        i = P.intr("ortho")
        kind, p = P.info[i]
        for _ in range(r.randrange(1, 3)):
            P.op("c2p", i=i, x=P.pts(P.cpoints(g.count())))
        x = P.pix(P.pixels(kind, p, g.count()))
        b = P.op("p2c", i=i, x=x)
        P.op("c2p", i=i, x=P.op("por", b=b))
        P.op("c2p", i=i, x=P.op("pord", b=b, d=S(P.dist())))


def s_frames(P):
    """C04: world and camera coordinates"""
    g, r = P.g, P.g.r
    for _ in range(r.randrange(1, 4)):
        e = P.extr()
        if r.random() < 0.3:
            e2 = P.cam(e=e)
            P.info[e2] = P.info[e]
            e = e2
        n = g.count()
        x = P.pts([g.vec() for _ in range(n)])
        y = P.op("w2c", e=e, x=x)
        P.op("c2w", e=e, x=y)
        n = g.count()
        x = P.pts(P.cpoints(n))
        y = P.op("c2w", e=e, x=x)
        P.op("w2c", e=e, x=y)
        if r.random() < 0.3:          # the center itself, and points next to it
            c = P.info[e][1]
            d = 10 ** r.uniform(-6, 0)
            x = P.pts([c, [c[0] + d, c[1], c[2]], [c[0], c[1] - d, c[2] + d]], "d")
            P.op("c2w", e=e, x=P.op("w2c", e=e, x=x))


def s_poses(P):
    """C05, C06, C07: poses"""
    g, r = P.g, P.g.r
    for _ in range(r.randrange(2, 6)):
        k = r.random()
        if k < 0.5:
            e = P.extr()
        elif k < 0.6:
            e = P.op("extr_of", e=P.cam())
        elif k < 0.7:
            c = P.extr()
            for _ in range(r.randrange(1, 5)):
                c = P.op(r.choice(["extr_repose", "extr_rerc"]), e=c)
            e = c
        elif k < 0.8:
            c = P.cam("persp")
            P.op("obs", False, x=c)
            e = P.op(r.choice(["extr_repose", "extr_rerc"]), e=c)
        else:
            e = P.extr()
            P.op("w2c", e=e, x=P.pts([g.vec() for _ in range(2)]))
        if r.random() < 0.6:
            P.op("obs", False, x=e)


def s_view(P):
    for _ in range(P.g.r.randrange(3, 8)):
        e = P.view()
        if P.g.r.random() < 0.4:
            P.op("obs", False, x=e)


def s_rt(P):
    """C07"""
    g, r = P.g, P.g.r
    for _ in range(r.randrange(2, 4)):
        e = P.extr(r.choice(["rc", "pose", "view"]))
        x = e
        for _ in range(r.randrange(1, 4)):
            x = P.op(r.choice(["extr_repose", "extr_rerc"]), e=x)
        pts = P.pts([g.vec() for _ in range(2)])
        P.op("w2c", e=e, x=pts)
        P.op("w2c", e=x, x=pts)


def s_cam(P):
    """C08"""
    g, r = P.g, P.g.r
    for _ in range(r.randrange(1, 4)):
        c = P.cam()
        (kind, p), e = P.info[c]
        if r.random() < 0.2:
            P.op("obs", False, x=c)
        x = P.pts(P.wpoints(c, g.count()))
        P.op("w2p", cam=c, x=x)
        b = P.op("p2w", cam=c, x=P.pix(P.pixels(kind, p, g.count())))
        k = r.random()
        if k < 0.3:
            P.op("por", b=b)
        elif k < 0.5:
            P.op("pord", b=b, d=S(P.dist()))
        elif k < 0.7:
            P.op("bobs", False, b=b)
        if r.random() < 0.2:
            y = P.op("w2c", e=c, x=x)


def s_roundtrip(P):
    """C09"""
    g, r = P.g, P.g.r
    for _ in range(r.randrange(1, 4)):
        c = P.cam()
        (kind, p), e = P.info[c]
        b = P.op("p2w", cam=c, x=P.pix(P.pixels(kind, p, g.count())))
        P.op("w2p", cam=c, x=P.op("por", b=b))
        for _ in range(r.randrange(1, 3)):
            d = P.dist()
            if r.random() < 0.5:
                d = abs(d) or 1.0
            P.op("w2p", cam=c, x=P.op("pord", b=b, d=S(d)))


def s_bundle(P):
    """C10"""
    g, r = P.g, P.g.r
    for _ in range(r.randrange(1, 4)):
        n = r.choice([1, 1, 1, 1, 1, 1, 2, 3, 4, 5, 8, 10, 16, 32, 70]) if r.random() < 0.7 else g.count()
        b = P.bundle(n)
        P.op("por", b=b)
        P.op("pord", b=b, d=S(P.dist()))
        P.op("bobs", False, b=b)
        if n == 1:
            ray = P.op("single", b=b)
        if r.random() < 0.3:
            P.op("pord", b=b, d=S(P.dist()))


def s_r2w(P):
    """C11"""
    g, r = P.g, P.g.r
    for _ in range(r.randrange(1, 4)):
        n = r.choice([1, 2, 3, 5]) if r.random() < 0.5 else g.count()
        b = P.bundle(n, ("so", "sd", "pso", "psd", "p2c"), "c")
        e = P.extr()
        if r.random() < 0.3:
            e2 = P.cam(e=e)
            P.info[e2] = P.info[e]
            e = e2
        x = P.op("por", b=b)
        y = P.op("c2w", e=e, x=x)
        w = P.op("r2w", e=e, b=b)
        P.op("por", b=w)
        P.op("pord", b=w, d=S(P.dist()))
        P.op("bobs", False, b=w)
        if n == 1:
            P.op("single", b=w)
        if r.random() < 0.4:
            d = S(P.dist())
            P.op("c2w", e=e, x=P.op("pord", b=b, d=d))
            P.op("pord", b=w, d=d)


def mess(P, rows, bad):
    """rows: permuted, some repeated, some replaced by special values"""
    g, r = P.g, P.g.r
    rows = list(rows)
    k = r.random()
    if k < 0.25:
        r.shuffle(rows)
    elif k < 0.4 and rows:
        rows = [r.choice(rows) for _ in rows]
    elif k < 0.55:
        rows = rows[:r.randrange(len(rows) + 1)]
    elif k < 0.67 and rows:
        rows = rows + [r.choice(rows) for _ in range(r.randrange(1, 5))]
    elif k < 0.9 and rows:
        # in ascending or descending order of a column, or of the magnitude
        j = r.choice([0, 1, len(rows[0]) - 1, len(rows[0]) - 1, len(rows[0])])
        rows.sort(key=lambda x: x[j] if j < len(x) else sum(map(abs, x)), reverse=r.random() < 0.5)
        if r.random() < 0.7:
            return rows
    if rows and r.random() < 0.4:
        # rows that share some coordinates with another one
        for _ in range(r.randrange(1, 4)):
            j = r.randrange(len(rows))
            v = list(rows[j])
            i = r.randrange(len(v))
            v[i] = r.choice([-v[i], v[i] + 1, v[i] * (1 + 2.0 ** -20), g.num(), g.num()])
            rows.insert(r.choice([j, j + 1, j + 1, r.randrange(len(rows) + 1)]), v)
    if bad and rows and r.random() < 0.5:
        j = r.randrange(len(rows))
        v = list(rows[j])
        v[r.randrange(len(v))] = r.choice([math.nan, math.inf, -math.inf, 0.0])
        rows[j] = v
    return rows


def s_rows(P):
    """C12: the same rows in different company"""
    g, r = P.g, P.g.r
    big = g.large
    n = g.count()
    k = s_rows.kind = (s_rows.kind + 1) % 8
    if k == 0:
        e = P.extr()
        base = [g.vec() for _ in range(n)]
        f = lambda rows, lay: P.op("w2c", e=e, x=P.pts(rows, lay))
    elif k == 1:
        e = P.extr()
        base = P.cpoints(n)
        f = lambda rows, lay: P.op("c2w", e=e, x=P.pts(rows, lay))
    elif k == 2:
        i = P.intr()
        base = P.cpoints(n, P.info[i][0])
        f = lambda rows, lay: P.op("c2p", i=i, x=P.pts(rows, lay))
    elif k == 3:
        i = P.intr()
        base = P.pixels(*P.info[i], n)
        def f(rows, lay):
            b = P.op("p2c", i=i, x=P.pix(rows, lay))
            P.op("por", b=b)
            P.op("pord", b=b, d=d)
    elif k == 4:
        c = P.cam()
        base = P.wpoints(c, n)
        f = lambda rows, lay: P.op("w2p", cam=c, x=P.pts(rows, lay))
    elif k == 5:
        c = P.cam()
        base = P.pixels(*P.info[c][0], n)
        def f(rows, lay):
            b = P.op("p2w", cam=c, x=P.pix(rows, lay))
            P.op("por", b=b)
            P.op("pord", b=b, d=d)
    elif k == 6:
        e = P.extr()
        so = r.random() < 0.5
        base = [g.nzvec() if r.random() < 0.95 else [0.0] * 3 for _ in range(n)]
        q, t, new = S(g.quat()), S(g.center()), r.random() < 0.5
        def f(rows, lay):
            if new:
                b = P.op("bso" if so else "bsd", fr="c", rows=S(rows), lay=lay)
            else:
                b = P.op("bpose", so=so, fr="c", rows=S(rows), lay=lay, q=q, t=t)
            P.op("por", b=b)
            P.op("pord", b=b, d=d)
            P.op("r2w", e=e, b=b)
    else:
        so = r.random() < 0.5
        base = [g.nzvec() if r.random() < 0.95 else [0.0] * 3 for _ in range(n)]
        q, t, fr = S(g.quat()), S(g.center()), r.choice("wc")
        def f(rows, lay):
            b = P.op("bpose", so=so, fr=fr, rows=S(rows), lay=lay, q=q, t=t)
            P.op("por", b=b)
            P.op("pord", b=b, d=d)
    d = S(P.dist())
    f(base, "d")
    for row in (base[:1] + base[-2:] if big else base[:3]):
        f([row], r.choice("sdv"))
    if big:
        f(base[::-1], g.lay(len(base)))
        return
    for _ in range(r.randrange(1, 4)):
        rows = mess(P, base, True)
        f(rows, g.lay(len(rows)))
    if len(base) in STATIC:
        f(base, "s")
    f(base, "v")
    if r.random() < 0.3:
        f([], "d")


s_rows.kind = -1


def rig(P, n):
    """rays from cameras on a mast, a wall, a table: what they have in common
    is exact, and several such coincidences meet in one set"""
    g, r = P.g, P.g.r
    s = r.choice([1.0, 4.0, 10.0, g.pos(0.5, 50)])
    num = r.choice([lambda: float(r.randrange(-4, 5)), lambda: r.uniform(-s, s)])
    shared = [r.random() < p for p in r.choice([(.9, .1, .1), (.1, .9, .1), (.1, .1, .9), (.5, .5, .5)])]
    home = [r.choice([0.0, num()]) for _ in range(3)]
    x = [home[i] if r.random() < 0.35 else num() for i in range(3)]
    aims = r.choice([(1, 0, 0, 0), (3, 1, 1, 1), (1, 2, 1, 0), (1, 0, 2, 1), (1, 1, 1, 3)])
    stray = r.random() < 0.3
    rays = []
    for j in range(n):
        if rays and r.random() < 0.15:      # the mirror image of another
            y, i = r.choice(rays), r.randrange(3)
            rays.append([2 * x[q] - y[q] if q == i else y[q] for q in range(3)] + [-y[3 + q] if q == i else y[3 + q] for q in range(3)])
            continue
        c = [home[i] if shared[i] and not (stray and r.random() < 0.3) else num() for i in range(3)]
        aim = r.choices(range(4), aims)[0]
        if aim == 3:                        # along an axis
            d = [0.0] * 3
            d[r.randrange(3)] = r.choice([1.0, -1.0, 2.0])
        else:
            d = [x[i] - c[i] for i in range(3)]
            if aim == 1:                    # within the shared plane
                d = [0.0 if shared[i] else d[i] for i in range(3)]
            if aim == 2:
                d[r.randrange(3)] = 0.0
            if r.random() < 0.3:
                f = r.choice([-1.0, 0.5, 2.0, 0.125])
                d = [y * f for y in d]
        if not any(d):
            d = [float(r.randrange(-3, 4)) for _ in range(2)] + [1.0]
        rays.append(c + d)
    if r.random() < 0.2:                    # the ends belong together
        y = rays[0]
        f = r.choice([1.0, -1.0])
        rays[-1] = [r.choice([y[i], rays[-1][i]]) for i in range(3)] + [f * q for q in y[3:]]
    return rays


def raylist(P, n=None):
    """rays as lists of six numbers"""
    g, r = P.g, P.g.r
    k = r.random()
    n = n or (r.choice([2, 2, 2, 3, 3, 4, 5]) if k < 0.75 else r.randrange(6, 40) if k < 0.98 else max(2, g.newcount(130)))
    kind = r.choice([*range(11), 10, 11, 11, 11])
    if kind == 11:
        return rig(P, n)
    s = g.pos(0.1, 1000) if g.w == "f64" else g.pos(0.5, 50)
    narrow = 10 ** r.uniform(-2.9 if g.w == "f64" else -1.2, -0.5)
    axis = unit([r.gauss(0, 1) for _ in range(3)])
    x = [r.uniform(-s, s) for _ in range(3)]
    if r.random() < 0.1:
        x = [0.0, 0.0, 0.0]
    rays = []
    for j in range(n):
        if kind in (0, 1, 2, 9):           # near one point
            c = [x[i] + r.gauss(0, s) for i in range(3)]
            e = 10 ** r.uniform(-6, 0) * s if kind else 0
            d = [x[i] - c[i] + r.gauss(0, e) for i in range(3)]
            f = r.choice([1.0, -1.0, 0.01, 100.0, 1 / math.sqrt(dot(d, d))])
            if r.random() < 0.3:
                b = r.choice([8, 40] if g.w == "f64" else [8, 14])
                f = g.mag(-b, b)
            if r.random() < 0.2:            # almost unit vectors
                f = (1 + r.choice([-1, 1]) * 2.0 ** r.uniform(-20, -4)) / math.sqrt(dot(d, d))
            d = [y * f for y in d]
        elif kind == 3:                     # small integers
            c = [float(r.randrange(-5, 6)) for _ in range(3)]
            d = [0.0] * 3
            while not any(d):
                d = [float(r.randrange(-3, 4)) for _ in range(3)]
        elif kind == 4:                     # along the axes
            c = [float(r.randrange(-5, 6)) for _ in range(3)]
            d = [0.0] * 3
            d[r.randrange(3)] = r.choice([1.0, -1.0, 2.0, 0.5])
        elif kind == 5:                     # any lines
            c, d = g.vec(s), [r.gauss(0, 1) for _ in range(3)]
        elif kind == 6:                     # one center
            c = x
            d = [r.gauss(0, 1) for _ in range(3)]
        elif kind == 7:                     # exactly parallel
            d0 = rays[0][3:] if rays else [float(r.randrange(1, 5)), float(r.randrange(-4, 5)), float(r.randrange(-4, 5))]
            c = [r.uniform(-s, s) for _ in range(3)]
            d = [y * r.choice([1.0, -1.0, 2.0, -0.5]) for y in d0]
        elif kind == 10:                    # a narrow pencil
            d = unit([axis[i] + narrow * r.gauss(0, 0.7) for i in range(3)])
            f = s * r.uniform(0.3, 3)
            e = r.choice([0, 0, narrow * s * r.uniform(0, 0.1)])
            c = [x[i] - f * d[i] + r.gauss(0, e) for i in range(3)]
            f = r.choice([1.0, -1.0, g.pos(0.01, 100)])
            d = [y * f for y in d]
        elif kind == 8:                     # a fan in a plane
            c = [r.uniform(-s, s), r.uniform(-s, s), 0.0]
            d = [x[0] - c[0], x[1] - c[1], 0.0]
        if kind == 9 and rays and r.random() < 0.4:   # a ray twice
            c, d = rays[0][:3], rays[0][3:]
        rays.append(list(c) + list(d))
    return rays


def s_isect(P):
    """C13"""
    g, r = P.g, P.g.r
    for _ in range(r.randrange(1, 5)):
        rays = raylist(P)
        if r.random() < 0.2:
            regs = [P.op("ray", c=S(x[:3]), d=S(x[3:])) for x in rays]
            P.op("isect", rays=regs)
        else:
            P.op("isect", rays=S(rays), fr=r.choice("wc"))


def s_isect_inv(P):
    """C14"""
    g, r = P.g, P.g.r
    for _ in range(r.randrange(1, 3)):
        n = r.choice([2, 2, 3, 3, 4, 5, 6, 8, 12])
        if r.random() < 0.05:
            n = r.choice([17, 33, 40, 65, 129, max(2, g.newcount(300))])
        rays = []
        par = r.random() < 0.1
        while len(rays) < n:
            c = [r.randrange(-64, 65) / r.choice([1, 2, 4]) for _ in range(3)]
            d = [r.randrange(-8, 9) / r.choice([1, 2]) for _ in range(3)]
            if par and rays:
                d = rays[0][3:]
            if rays and r.random() < 0.1:      # a line again
                c, d = r.choice(rays)[:3], r.choice([1, 1, -1, 2])
                d = [y * d for y in [x for x in rays if x[:3] == c][0][3:]]
            if any(d):
                rays.append(c + d)
        unit0 = r.choice([1.0, 1.0, 1.0, 2.0 ** r.randrange(-20, 11)])       # of length
        rays = [[y * unit0 for y in x[:3]] + x[3:] for x in rays]
        if r.random() < 0.08:                  # one ray again and again
            rays = [rays[0]] * n
        elif r.random() < 0.08:                # from one point
            rays = [rays[0][:3] + x[3:] for x in rays]
        a = P.op("isect", rays=S(rays), fr="w")
        for _ in range(r.randrange(1, 4)):
            perm = list(range(n))
            if r.random() < 0.7:
                r.shuffle(perm)
            out = []
            for j in perm:
                c, d = rays[j][:3], rays[j][3:]
                t = r.choice([0, 0, r.randrange(-16, 17) / 4, float(r.randrange(-100, 101))]) * unit0
                b = r.choice([4, 8, 16, 40] if g.w == "f64" else [4, 8, 16])
                f = r.choice([1, 1, -1, 2.0 ** r.randrange(-b, b + 1), -(2.0 ** r.randrange(-b, b + 1)), float(r.randrange(1, 50))])
                if r.random() < 0.15:       # nearly unit vectors, exactly along the line
                    f = (1 + r.choice([-1, 1]) * 2.0 ** r.uniform(-16, -6)) / math.sqrt(dot(d, d))
                    f = round(f * 2 ** 17) / 2 ** 17 if g.w == "f64" else round(f * 2 ** 14) / 2 ** 14
                    f = f or 1.0
                out.append([c[i] + t * d[i] for i in range(3)] + [d[i] * f for i in range(3)])
            k = r.random()
            ry = S(out)
            if k < 0.2:
                ry = [P.op("ray", c=S(x[:3]), d=S(x[3:])) for x in out]
            P.op("isect", rays=ry, fr=r.choice("wc"), like=a, perm=[j + 1 for j in perm])
    if r.random() < 0.5:
        P.op("isect", rays=[])
        P.op("isect", rays=S(raylist(P, 2)[:1]), fr=r.choice("wc"))
    if r.random() < 0.2:
        b = P.bundle(1)
        P.op("isect", rays=[P.op("single", b=b)])


def s_tri(P):
    """C23: several cameras look at a point"""
    g, r = P.g, P.g.r
    s = g.pos(0.5, 100)
    x = [r.uniform(-s, s) for _ in range(3)]
    if r.random() < 0.2:
        x = [float(r.randrange(-4, 5)) for _ in range(3)]
    if r.random() < 0.25:           # far away
        f = s * 10 ** (r.uniform(0, 6) if g.w == "f64" else r.uniform(0, 1.5))
        o = [r.uniform(-f, f) for _ in range(3)]
        if r.random() < 0.5:
            o = [r.choice([0.0, f, -f]) for _ in range(3)]
        x = [x[i] + o[i] for i in range(3)]
    xs = P.pts([x], "s")
    n = r.choice([2, 2, 3, 3, 4, 5, 6, 9])
    rays = []
    # the cameras are all around the point, or close to each other
    narrow = None if r.random() < 0.65 else 10 ** r.uniform(-2.4 if g.w == "f64" else -1.2, -0.3)
    d0 = unit([r.gauss(0, 1) for _ in range(3)])
    rig = r.choice([None, None, None, "stereo", "axes", "level"])
    if rig == "axes":               # exact rotations, small integers: rays along the axes and in planes of them
        x = [float(r.randrange(-4, 5)) for _ in range(3)]
        xs = P.pts([x], "s")
    q0 = g.quat()
    for j in range(n):
        if rig:
            if rig == "axes":
                q = [r.choice([1.0, -1.0]) * y for y in r.choice([[1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 1, 0], [0, 0, 0, 1], [.5] * 4, [.5] * 4, [.5] * 4, [.5] * 4])]
                z = r.choice([1.0, 2.0, 4.0, 8.0])
                off = [r.choice([0.0, 0.0, z * r.randrange(-3, 4)]) for _ in range(2)] + [z]
                o = mv([list(k) for k in zip(*rotm(q))], off)
                e = P.op("extr_rc", q=S(q), c=S([x[i] - o[i] for i in range(3)]))
            elif rig == "stereo":   # side by side, looking the same way
                m = rotm(q0)
                off = [s * r.uniform(-2, 2), r.choice([0.0, s * r.uniform(-2, 2)]), s * (2 if j == 0 or r.random() < 0.7 else r.uniform(1, 4))]
                o = mv([list(k) for k in zip(*m)], off)
                e = P.op("extr_rc", q=S(q0), c=S([x[i] - o[i] for i in range(3)]))
            else:                   # on one height, upright
                phi = r.uniform(0, 2 * math.pi)
                c = [x[0] + 3 * s * math.cos(phi), x[1] + 3 * s * math.sin(phi), x[2] + r.choice([0.0, s])]
                e = P.op("extr_view", c=S(c), l=S([x[0], x[1], c[2]]), up=S([0.0, 0.0, 1.0]))
            if r.random() < 0.75:
                f = r.choice([r.uniform(100, 3000), 2.0 ** r.randrange(5, 11)])
                i = P.op("persp", p=S([f, f, r.choice([0.0, 0.0, 4.0, r.uniform(-20, 20)]), float(r.randrange(0, 800)), float(r.randrange(0, 800))]))
            else:
                i = P.op("ortho", p=S([2.0 ** r.randrange(0, 6), 2.0 ** r.randrange(0, 6), float(r.randrange(0, 800)), float(r.randrange(0, 800))]))
            cam = P.op("cam", i=i, e=e)
            b = P.op("p2w", cam=cam, x=P.op("w2p", cam=cam, x=xs))
            rays.append(P.op("single", b=b))
            continue
        # a camera around the point, looking roughly at it
        d = unit([r.gauss(0, 1) for _ in range(3)])
        if narrow:
            d = unit([d0[i] + narrow * d[i] for i in range(3)])
        dist = s * r.uniform(0.5, 5)
        c = [x[i] + d[i] * dist for i in range(3)]
        l = [x[i] + r.gauss(0, 0.1) * dist for i in range(3)]
        k = r.random()
        if k < 0.7:
            up = [r.gauss(0, 1) for _ in range(3)]
            e = P.op("extr_view", c=S(c), l=S(l), up=S(up))
        else:
            e = P.op("extr_rc", q=S(g.quat()), c=S(c))
        if r.random() < 0.75:
            f = g.pos(100, 3000)
            p = [f, f * r.uniform(0.7, 1.4), r.choice([0.0, r.uniform(-20, 20)]), r.uniform(100, 1500), r.uniform(100, 1500)]
            i = P.op("persp", p=S(p))
        else:
            f = g.pos(1, 300)
            i = P.op("ortho", p=S([f, f * r.uniform(0.7, 1.4), r.uniform(100, 1500), r.uniform(100, 1500)]))
        cam = P.op("cam", i=i, e=e)
        u = P.op("w2p", cam=cam, x=xs)
        b = P.op("p2w", cam=cam, x=u)
        rays.append(P.op("single", b=b))
    P.op("isect", rays=rays, tri=True)
    if n > 2 and r.random() < 0.5:
        P.op("isect", rays=rays[:2], tri=True)
    if r.random() < 0.3:
        P.op("isect", rays=rays[::-1], tri=True)


def kmat(p):
    return [[p[0], p[2], p[3]], [0.0, p[1], p[4]], [0.0, 0.0, 1.0]]


def mm(a, b):
    return [[sum(a[i][k] * b[k][j] for k in range(3)) for j in range(3)] for i in range(3)]


def s_pmat(P):
    """C15: cameras from projection matrices"""
    g, r = P.g, P.g.r
    for _ in range(r.randrange(1, 4)):
        k = r.random()
        if k < 0.55:
            p = g.persp()
            p[0], p[1] = abs(p[0]), abs(p[1])
            if r.random() < 0.7:
                p = [g.pos(20, 3000), g.pos(20, 3000), r.choice([0.0, r.uniform(-50, 50)]), r.uniform(-100, 1500), r.uniform(-100, 1500)]
            if r.random() < 0.15:            # one direction of the sensor much finer than the other
                p[r.randrange(2)] *= 10 ** r.uniform(-4, 4) if g.w == "f64" else 10 ** r.uniform(-1.5, 1.5)
            q, c = g.quat(), g.center()
            a = mm(kmat(p), rotm(q))
            t = [-y for y in mv(a, c)]
            b = 60 if g.w == "f64" else 10
            lam = r.choice([1.0, 1.0, -1.0, g.mag(), g.mag(-b, b), 2.0, 1 / (a[2][2] or 1.0), 1 / (t[2] or 1.0)])
            m = [lam * y for i in range(3) for y in a[i] + [t[i]]]
            e = P.op("pmat_cam", m=S(m), lay=r.choice(["s", "v"]))
        elif k < 0.8:
            # any regular matrix
            while True:
                if r.random() < 0.4:
                    a = [[float(r.choice([0, 0, 1, -1, 2, -3, 5])) for _ in range(3)] for _ in range(3)]
                else:
                    s = [g.pos(0.1, 1000) for _ in range(3)]
                    a = [[r.gauss(0, s[i]) for _ in range(3)] for i in range(3)]
                d = dot(a[0], cross(a[1], a[2]))
                if abs(d) > 1e-3 * math.prod(sum(map(abs, x)) or 1 for x in a):
                    break
            t = g.vec()
            lam = 1.0 if r.random() < 0.8 else g.mag(-60, 60) if g.w == "f64" else g.mag(-10, 10)
            m = [lam * y for i in range(3) for y in a[i] + [t[i]]]
            e = P.op("pmat_cam", m=S(m), lay=r.choice(["s", "v"]))
        else:
            c = P.cam("persp")
            e = P.op("pmat_of", cam=c, k=S(r.choice([1.0, -1.0, g.mag(), 0.5])))
        if r.random() < 0.5:
            P.op("w2p", cam=e, x=P.pts([g.vec() for _ in range(3)]))
        if r.random() < 0.3:
            P.op("obs", False, x=e)
        if r.random() < 0.3:
            P.op("pmat_of", cam=e, k=S(r.choice([1.0, -2.0])))


def s_cammat(P):
    """C16"""
    g, r = P.g, P.g.r
    for _ in range(r.randrange(1, 5)):
        k = r.random()
        if k < 0.3:
            # the world origin in (or close to) the principal plane
            i = P.intr("persp")
            e = P.op("extr_pose", q=S(g.quat()), t=S([g.num(), g.num(), r.choice([0.0, -0.0, 10 ** r.uniform(-12, -3), g.num()])]))
            P.info[e] = ([[1, 0, 0], [0, 1, 0], [0, 0, 1]], [0, 0, 0])
            c = P.cam(i=i, e=e)
        else:
            c = P.cam("persp")
        P.op("cam_mat", False, cam=c)
        if r.random() < 0.3:
            x = P.pts(P.wpoints(c, 3))
            P.op("w2p", cam=c, x=x)
        if r.random() < 0.2:
            P.op("pmat_of", cam=c, k=S(1.0))


def s_jac(P):
    """C17"""
    g, r = P.g, P.g.r
    for _ in range(r.randrange(1, 4)):
        if r.random() < 0.2:
            i = P.intr("persp")
            e = P.op("extr_pose", q=S(g.quat()), t=S([g.num(), g.num(), r.choice([0.0, -0.0, 10 ** r.uniform(-12, -3), g.num()])]))
            P.info[e] = ([[1, 0, 0], [0, 1, 0], [0, 0, 1]], [0, 0, 0])
            c = P.cam(i=i, e=e)
        else:
            c = P.cam("persp")
        j = P.op("jac", cam=c)
        for _ in range(r.randrange(1, 5)):
            x = P.wpoints(c, 1)
            P.op("lin", False, j=j, x=P.pts(x, r.choice("sv")))


NORM = [None, None, None, 0.0, 0.0, None, None, 0.0, 0.0, 0.0, 1.0, 0.0]

def s_norm34(P):
    """C19"""
    g, r = P.g, P.g.r
    for _ in range(r.randrange(3, 9)):
        p = g.persp()
        if r.random() < 0.1:
            p[r.randrange(5)] = 0.0
        m = list(NORM)
        m[0], m[1], m[2], m[5], m[6] = p[0], p[2], p[3], p[1], p[4]
        k = r.random()
        fixed = [3, 4, 7, 8, 9, 10, 11]
        if k < 0.25:
            pass
        elif k < 0.7:
            j = r.choice(fixed)
            d = r.choice([1.0, -1.0, 2.0, -2.0, 0.5, g.pos(1e-4, 1), -g.pos(1e-4, 1), g.pos(1, 1e4), g.lit(),
                          r.choice([1, -1]) * (10 ** r.uniform(-13.5, -4) if g.w == "f64" else 10 ** r.uniform(-5, -3)),
                          r.choice([1, -1]) * (10 ** r.uniform(-13.5, -4) if g.w == "f64" else 10 ** r.uniform(-5, -3))])
            m[j] += d
        elif k < 0.8:
            for j in r.sample(fixed, r.randrange(2, 5)):
                m[j] += r.choice([1.0, -1.0, g.pos(1e-3, 10), -g.pos(1e-3, 10)])
        elif k < 0.86:
            m[r.choice(fixed)] = r.choice([math.nan, math.inf, -math.inf])
        elif k < 0.92:
            m = [y * 2 for y in m]
        else:
            m[10] = r.choice([-1.0, 0.0, 2.0])
        i = P.op("norm34", m=S(m))
        if r.random() < 0.4:
            P.op("c2p", i=i, x=P.pts(P.cpoints(2)))


ROUTES = ["value", "bincode", "text", "reader"]

def s_serde(P):
    """C18"""
    g, r = P.g, P.g.r
    for _ in range(r.randrange(1, 4)):
        k = r.random()
        route = r.choice(ROUTES)
        if k < 0.3:
            e = P.extr()
            f = P.op("serde", x=e, route=route)
            x = P.pts([g.vec() for _ in range(2)])
            for z in (e, f):
                P.op("w2c", e=z, x=x)
            for z in (e, f):
                P.op("c2w", e=z, x=x)
            P.op("eq", False, a=e, b=f)
            P.op("obs", False, x=f)
        elif k < 0.5:
            i = P.intr(r.choice(["persp", "ortho"]))
            kind, p = P.info[i]
            f = P.op("serde", x=i, route=route)
            x = P.pts(P.cpoints(2))
            for z in (i, f):
                P.op("c2p", i=z, x=x)
            x = P.pix(P.pixels(kind, p, 2))
            for z in (i, f):
                P.op("p2c", i=z, x=x)
            P.op("eq", False, a=i, b=f)
            e = i
        elif k < 0.75:
            e = c = P.cam(r.choice(["persp", "ortho"]))
            (kind, p), _ = P.info[c]
            f = P.op("serde", x=c, route=route)
            x = P.pts(P.wpoints(c, 2))
            for z in (c, f):
                P.op("w2p", cam=z, x=x)
            x = P.pix(P.pixels(kind, p, 2))
            for z in (c, f):
                P.op("p2w", cam=z, x=x)
            P.op("eq", False, a=c, b=f)
            if kind == "persp":
                for z in (c, f):
                    P.op("cam_mat", False, cam=z)
                y = P.pts(P.wpoints(c, 1), "s")
                for z in (c, f):
                    P.op("lin", False, j=P.op("jac", cam=z), x=y)
        elif k < 0.85:
            e = None
            b = P.bundle()
            f = P.op("serde", x=b, route=route)
            d = S(P.dist())
            for z in (b, f):
                P.op("por", b=z)
            for z in (b, f):
                P.op("pord", b=z, d=d)
            P.op("eq", False, a=b, b=f)
        else:
            e = None
            kind = r.choice(["extr", "persp", "ortho", "camp", "camo"])
            q = g.quat()
            n = math.sqrt(dot(q, q))
            q = [y / n for y in q]
            fe = {"rquat": S([q[1], q[2], q[3], q[0]]), "camcenter": S(g.center())}
            fp = {"params": dict(zip(["fx", "fy", "skew", "cx", "cy"], S(g.persp())))}
            fo = {"params": dict(zip(["sx", "sy", "cx", "cy"], S(g.ortho())))}
            v = {"extr": fe, "persp": fp, "ortho": fo, "camp": {"intrinsics": fp, "extrinsics": fe},
                 "camo": {"intrinsics": fo, "extrinsics": fe}}[kind]
            f = P.op("serde_read", kind=kind, v=v)
            if kind == "extr":
                P.op("w2c", e=f, x=P.pts([g.vec() for _ in range(2)]))
                P.op("obs", False, x=f)
            elif kind in ("camp", "camo"):
                P.op("w2p", cam=f, x=P.pts([g.vec() for _ in range(2)]))
            else:
                P.op("c2p", i=f, x=P.pts(P.cpoints(2)))
            P.op("serde_form", False, x=f)
        if e is not None:
            ke = ["rquat", "camcenter"]
            ki = ["params"] + [f"params.{y}" for y in ((["fx", "fy", "skew"] if kind == "persp" else ["sx", "sy"]) + ["cx", "cy"])] if k >= 0.3 else []
            ks = ke if k < 0.3 else ki if k < 0.5 else \
                ["intrinsics", "extrinsics"] + ["intrinsics." + y for y in ki] + ["extrinsics." + y for y in ke]
            for _ in range(r.randrange(0, 4)):
                P.op("serde_bad", False, x=e, how=r.choice(
                    [f"{a}:{b}" for a in ("missing", "type", "null", "dup") for b in ks] +
                    [f"short:{b}" for b in ks if b.split(".")[-1] in ke] + [f"trunc:{j}" for j in (0, 3, 7)] + ["empty", "null"]))
            if r.random() < 0.4:
                P.op("serde_form", False, x=e)
            if r.random() < 0.2:
                P.op("serde", x=f, route=r.choice(ROUTES))


def calls(P, r, regs, args):
    """one call on one of the given objects"""
    kind, k = r.choice(regs)
    if kind == "extr":
        n = r.randrange(5)
        if n == 0:
            return lambda: P.op("w2c", e=k, x=r.choice(args["pts"]))
        if n == 1:
            return lambda: P.op("c2w", e=k, x=r.choice(args["pts"]))
        if n == 2:
            return lambda: P.op("obs", False, x=k)
        if n == 3:
            return lambda: P.op("r2w", e=k, b=args["bun"])
        return lambda: P.op("extr_repose", e=k)
    if kind == "intr":
        if r.random() < 0.5:
            return lambda: P.op("c2p", i=k, x=r.choice(args["pts"]))
        return lambda: P.op("p2c", i=k, x=r.choice(args["pix"]))
    if kind == "bun":
        if r.random() < 0.5:
            return lambda: P.op("por", b=k)
        return lambda: P.op("pord", b=k, d=r.choice(args["d"]))
    n = r.randrange(5 if kind == "pcam" else 3)
    if n == 0:
        return lambda: P.op("w2p", cam=k, x=r.choice(args["pts"]))
    if n == 1:
        return lambda: P.op("p2w", cam=k, x=r.choice(args["pix"]))
    if n == 2:
        return lambda: P.op("obs", False, x=k)
    if n == 3:
        return lambda: P.op("cam_mat", False, cam=k)
    return lambda: P.op("lin", False, j=P.op("jac", cam=k), x=args["pt"])


def s_text(P):
    """C25: the Debug texts of objects of all kinds, however they were made"""
    g, r = P.g, P.g.r
    g.large = 0
    objs, tabs = [], []
    kind = lambda: r.choice(["persp", "persp", "ortho"])
    far = lambda: r.choice([1.0, -1.0]) * 10 ** r.choice([r.uniform(-30, -6), r.uniform(-16, -6), r.uniform(6, 16), r.uniform(6, 30)])
    def odd(x):                     # with a number or two of unusual size
        for _ in range(r.choice([1, 1, 2])):
            x[r.randrange(len(x))] = far()
        return S(x)
    for _ in range(r.choice([0, 0, 1, 2])):
        k = r.randrange(5)
        if k == 0:
            objs.append(P.op("extr_rc", q=S(g.quat()), c=odd(g.center())))
        elif k in (1, 2):
            objs.append(P.op("persp", p=odd(g.persp())))
        elif k == 3:
            objs.append(P.op("ortho", p=odd(g.ortho())))
        else:
            tabs.append(P.op(r.choice(["bso", "bsd"]), fr=r.choice("cw"), rows=[odd(g.nzvec()) for _ in range(r.randrange(1, 4))], lay="d"))
    for _ in range(r.randrange(1, 4)):
        k = r.random()
        if k < 0.2:
            objs.append(P.extr())
        elif k < 0.35:
            objs.append(P.intr(kind()))
        elif k < 0.6:
            c = P.cam(kind())
            objs.append(c)
            if r.random() < 0.3:
                objs.append(P.op("extr_of", cam=c))
        else:
            n = g.count(True) if r.random() < 0.9 else r.randrange(6, 40)
            rows = [g.nzvec() for _ in range(n)]
            lay = g.lay(n)
            if k < 0.7:
                b = P.op(r.choice(["bso", "bsd"]), fr=r.choice("cw"), rows=S(rows), lay=lay)
            elif k < 0.8:
                b = P.op("bpose", so=r.random() < 0.5, fr=r.choice("cw"), rows=S(rows), lay=lay, q=S(g.quat()), t=S(g.center()))
            elif k < 0.9:
                i = P.intr(kind())
                b = P.op("p2c", i=i, x=P.pix(P.pixels(*P.info[i], n), lay))
            else:
                c = P.cam(kind())
                b = P.op("p2w", cam=c, x=P.pix(P.pixels(*P.info[c][0], n), lay))
            tabs.append(b)
            if r.random() < 0.5:
                tabs.append(P.op("por", b=b))
    if r.random() < 0.4:
        tabs.append(P.pts([g.vec() for _ in range(g.count(True))], r.choice("sdv")))
    for k in list(objs):
        h = r.random()
        if h < 0.2:
            objs.append(P.op("clone", x=k))
        elif h < 0.4:
            objs.append(P.op("serde", x=k, route=r.choice(ROUTES)))
    for k in objs + tabs:
        P.op("dbg", False, x=k)


def bundle_pairs(P):
    """bundles with the same data, or nearly, whose shared origin or direction is the same or another"""
    g, r = P.g, P.g.r
    for _ in range(r.randrange(1, 3)):
        n = g.count()
        so = r.random() < 0.5
        m = [g.nzvec() for _ in range(n)] if so or r.random() < 0.3 else [[0.0, 0.0, 0.0]] * n
        m2 = [list(x) for x in m]
        if n and r.random() < 0.3:
            j, k = r.randrange(n), r.randrange(3)
            m2[j][k] += r.choice([1.0, -0.5, 1e-3, 2.0 ** -30])
        lay = r.choice("sd")
        q, t = g.quat(), g.center()
        t0 = [0.0, 0.0, 0.0]
        if so:
            t2 = list(t)
            t2[r.randrange(3)] += r.choice([1.0, -3.0, 0.25, 2.0 ** -r.randrange(3, 12)])
            poses = [(q, t), (q, t), (q, t2)]
        else:
            poses = [(q, t0), (q, t0), (g.quat(), t0)]
        e = [P.op("extr_pose", q=S(a), t=S(b)) for a, b in poses]
        bs = [P.op("r2w", e=x, b=P.op("bso" if so else "bsd", fr="c", rows=S(y), lay=lay)) for x, y in zip(e, [m, m2, m])]
        bs += [P.op("bpose", so=so, fr="w", rows=S(m), lay=lay, q=S(a), t=S(b)) for a, b in poses[1:]]
        bs.append(P.op("bso" if so else "bsd", fr="w", rows=S(m), lay=lay))
        for _ in range(r.randrange(3, 8)):
            a = r.choice(bs)
            if r.random() < 0.3:
                a = P.op("clone", x=a)
            P.op("eq", False, a=a, b=r.choice(bs))
        for b in r.sample(bs, 2):
            P.op("por", b=b)


def s_again(P):
    """C20: intersections one after another, of sets of rays that are alike in some respects"""
    g, r = P.g, P.g.r
    base = raylist(P, r.choice([2, 2, 3, 3, 4, 6]))
    sets = [base]
    for _ in range(r.randrange(3, 7)):
        y = [list(x) for x in r.choice([base, base, r.choice(sets)])]
        k = r.randrange(9)
        a, b = r.sample(range(3), 2)
        one = r.randrange(len(y))
        if k in (0, 1):         # mirrored directions, of all rays or of one
            for j, x in enumerate(y):
                if k == 0 or j == one:
                    x[3 + a] = -x[3 + a]
        elif k == 2:            # two axes of the directions changed
            for x in y:
                x[3 + a], x[3 + b] = x[3 + b], x[3 + a]
        elif k == 3:            # other centers
            y = [g.vec() + x[3:] for x in y]
        elif k == 4:            # one center moved
            y[one][a] += r.choice([1.0, -2.0, 0.25])
        elif k == 5:            # mirrored
            for x in y:
                x[a], x[3 + a] = -x[a], -x[3 + a]
        elif k == 6:            # two axes changed
            for x in y:
                x[a], x[b], x[3 + a], x[3 + b] = x[b], x[a], x[3 + b], x[3 + a]
        elif k == 7:            # in another order
            r.shuffle(y)
        else:                   # other directions
            y = [x[:3] + z[3:] for x, z in zip(y, raylist(P, len(y)))]
        sets.append(y)
    sets = [S(y) for y in sets]
    last = None
    for _ in range(r.randrange(8, 16)):
        last = r.choice([y for y in sets if y is not last])
        P.op("isect", rays=last, fr="w")


def near_copy(r, v, g):
    """another vector that has much in common with this one"""
    v = list(v)
    k, a = r.randrange(5), r.randrange(len(v))
    b = r.randrange(len(v))
    if k == 0:
        v[a] = -v[a]
    elif k == 1:
        v[a], v[b] = v[b], v[a]
    elif k == 2:
        v[a] = g.num()
    elif k == 3:
        v[a] += r.choice([1.0, -1.0, 0.5, 2.0 ** -10])
    else:
        v[a], v[b] = -v[a], -v[b]
    return v


def near_table(r, t, g):
    """another table that has much in common with this one"""
    t = [list(x) for x in t]
    k = r.randrange(8)
    j = r.randrange(len(t))
    a = r.randrange(len(t[0]))
    if k == 0:
        for x in t:
            x[a] = -x[a]
    elif k == 1:
        t[j] = near_copy(r, t[j], g)
    elif k == 2 and len(t) > 1:
        r.shuffle(t)
    elif k == 3:
        t = t[:-1] or t
    elif k == 4:
        t.append([g.num() for _ in t[0]])
    elif k == 5:
        b = r.randrange(len(t[0]))
        for x in t:
            x[a], x[b] = x[b], x[a]
    elif k == 6:
        t[j] = [g.num() for _ in t[0]]
    else:
        t[-1] = near_copy(r, t[-1], g)
    return t


def s_ctors(P):
    """C20: a few objects made again and again, in any order, from arguments that share some of their parts"""
    g, r = P.g, P.g.r
    how = r.choice(["extr_view", "extr_view", "pmat_cam", "pmat_cam", "extr_rc", "extr_pose"])
    if how == "extr_view":
        c, l = g.vec(), g.vec()
        first = dict(c=c, l=l, up=r.choice([[0.0, 0.0, 1.0], g.vec()]))
    elif how == "pmat_cam":
        a = mm(kmat([g.pos(20, 3000), g.pos(20, 3000), r.choice([0.0, r.uniform(-50, 50)]), r.uniform(-100, 1500), r.uniform(-100, 1500)]),
               rotm(g.quat()))
        t = [-y for y in mv(a, g.center())]
        first = dict(m=[a[k] + [t[k]] for k in range(3)])
    else:
        first = {"q": g.quat(), ("c" if how == "extr_rc" else "t"): g.center()}
    pool = [first]
    for _ in range(r.randrange(2, 5)):
        x = dict(r.choice(pool))
        for _ in range(r.choice([1, 1, 2])):
            k = r.choice(sorted(x))
            x[k] = near_table(r, x[k][:], g)[:3] if k == "m" else near_copy(r, x[k], g)
        if any(k in ("q", "up") and not any(x[k]) for k in x) or how == "extr_view" and x["c"] == x["l"] or len(x.get("m", "...")) != 3:
            continue
        pool.append(x)
    for x in r.choices(pool, k=r.randrange(8, 14)):
        P.op(how, **{k: S(sum(v, []) if k == "m" else v) for k, v in x.items()})


def s_partial(P):
    """C20: a few calls again and again, in any order, with objects and tables that share some of their parts"""
    g, r = P.g, P.g.r
    g.large = 0
    kind = r.choice(["persp", "persp", "ortho"])
    q, c = g.quat(), g.center()
    q2 = near_copy(r, q, g) if r.random() < 0.6 else g.quat()
    if not any(q2):
        q2 = q
    c2 = near_copy(r, c, g)
    e = []
    for a, b in r.sample([(q, c), (q, c2), (q2, c), (q2, c2)], 3):
        e.append(P.op("extr_rc", q=S(a), c=S(b)) if r.random() < 0.7 else P.op("extr_pose", q=S(a), t=S(b)))
    i0 = P.intr(kind)
    p = P.info[i0][1]
    p2 = near_copy(r, p, g)
    i = [i0, P.op(kind, p=S(p2))]
    P.info[i[1]] = (kind, p2)
    n = r.choice([1, 1, 2, 3, 4])
    t = [P.cpoints(n, kind)]
    t += [near_table(r, r.choice(t), g) for _ in range(2)]
    u = [P.pixels(kind, p, n)]
    u += [near_table(r, r.choice(u), g) for _ in range(2)]
    lay = lambda: r.choice("sdv") if r.random() < 0.3 else "d"
    use = r.sample(["w2c", "c2w", "c2p", "p2c", "w2p", "p2w", "por", "pord", "r2w"] + (["lin", "cam_mat"] if kind == "persp" else []),
                   r.choice([1, 1, 2]))
    pts = [P.pts(x, lay()) for x in t]
    pix = [P.pix(x, lay()) for x in u]
    cams = [P.op("cam", i=r.choice(i), e=x) for x in e]
    so = r.random() < 0.5
    bun = [P.op("bso" if so else "bsd", fr="c", rows=S(x), lay="d") for x in t[:2]]
    if set(use) & {"por", "pord"}:
        bun = [P.op("r2w", e=r.choice(e), b=r.choice(bun)) for _ in range(3)] + bun[:1]
    d = P.dist()
    d = [S(d), S(-d), S(P.dist())]
    jac = [P.op("jac", cam=x) for x in cams] if "lin" in use else []
    pt = [P.pts(x[:1], "s") for x in t] if "lin" in use else []
    can = {
        "w2c": lambda: dict(e=r.choice(e), x=r.choice(pts)), "c2w": lambda: dict(e=r.choice(e), x=r.choice(pts)),
        "c2p": lambda: dict(i=r.choice(i), x=r.choice(pts)), "p2c": lambda: dict(i=r.choice(i), x=r.choice(pix)),
        "w2p": lambda: dict(cam=r.choice(cams), x=r.choice(pts)), "p2w": lambda: dict(cam=r.choice(cams), x=r.choice(pix)),
        "por": lambda: dict(b=r.choice(bun)), "pord": lambda: dict(b=r.choice(bun), d=r.choice(d)),
        "r2w": lambda: dict(e=r.choice(e), b=r.choice(bun)), "cam_mat": lambda: dict(cam=r.choice(cams)),
        "lin": lambda: dict(j=r.choice(jac), x=r.choice(pt)),
    }
    pool = []
    for op in use:
        for _ in range(12 // len(use)):
            x = {"op": op, **can[op]()}
            if x not in pool and len(pool) < 6:
                pool.append(x)
    for x in r.choices(pool, k=r.randrange(12, 20)):
        op = x["op"]
        P.op(op, op not in ("lin", "cam_mat"), **{a: b for a, b in x.items() if a != "op"})
        if op == "lin" and r.random() < 0.3:
            jac[r.randrange(len(jac))] = P.op("jac", cam=r.choice(cams))


def s_race(P):
    """C20: the same operations by several threads at once, on several objects, many times"""
    g, r = P.g, P.g.r
    g.large = 0
    kind = r.choice(["persp", "persp", "ortho"])
    i = [P.intr(kind) for _ in range(2)]
    p = P.info[i[0]][1]
    e = [P.extr() for _ in range(2)]
    cams = [P.cam(i=i[0], e=e[0]), P.cam(i=i[1], e=e[1]), P.cam(i=i[0], e=e[1])]
    n = r.choice([1, 1, 2, 3, 5])
    pts = [P.pts(P.cpoints(n, kind)), P.pts([g.vec() for _ in range(n)])]
    pix = [P.pix(P.pixels(kind, p, n)) for _ in range(2)]
    pt = [P.pts([g.vec()], "s") for _ in range(2)]
    bun = [P.bundle(n, fr="c", kinds=k) for k in (("so", "p2c"), ("sd",), ("so", "sd", "pso", "psd"))]
    rays = [S(raylist(P, r.choice([2, 3, 5]))) for _ in range(3)]
    d = [S(P.dist()) for _ in range(3)]
    one = r.choice(bun)
    can = {
        "w2c": lambda: dict(e=r.choice(e), x=r.choice(pts)), "c2w": lambda: dict(e=r.choice(e), x=r.choice(pts)),
        "c2p": lambda: dict(i=r.choice(i), x=r.choice(pts)), "p2c": lambda: dict(i=r.choice(i), x=r.choice(pix)),
        "w2p": lambda: dict(cam=r.choice(cams), x=r.choice(pts)), "p2w": lambda: dict(cam=r.choice(cams), x=r.choice(pix)),
        "por": lambda: dict(b=r.choice(bun)), "pord": lambda: dict(b=r.choice([one, one, r.choice(bun)]), d=r.choice(d)),
        "r2w": lambda: dict(e=r.choice(e), b=r.choice(bun)), "obs": lambda: dict(x=r.choice(e + cams)),
        "clone": lambda: dict(x=r.choice(i + e + cams)), "dbg": lambda: dict(x=r.choice(i + e + cams)),
        "isect": lambda: dict(rays=r.choice(rays), fr="w"), "serde": lambda: dict(x=r.choice(i + e + cams), route=r.choice(ROUTES)),
        "cam": lambda: dict(i=r.choice(i), e=r.choice(e)),
        "extr_rc": lambda: dict(q=r.choice(qs), c=r.choice(cs)), "extr_pose": lambda: dict(q=r.choice(qs), t=r.choice(cs)),
    }
    if kind == "persp":
        j = [P.op("jac", cam=c) for c in cams[:2]]
        can.update(cam_mat=lambda: dict(cam=r.choice(cams)), jac=lambda: dict(cam=r.choice(cams)),
                   lin=lambda: dict(j=r.choice(j), x=r.choice(pt)), pmat_of=lambda: dict(cam=r.choice(cams), k=S(r.choice([1.0, -2.0]))))
    qs, cs = [S(g.quat()) for _ in range(2)], [S(g.center()) for _ in range(2)]
    make = lambda op: {"op": op, **can[op]()}
    for _ in range(r.randrange(2, 6)):
        op = r.choice(sorted(can))
        of = make(op)
        more = [make(op if r.random() < 0.8 else r.choice(sorted(can))) for _ in range(r.choice([2, 3, 5]))]
        k, n = r.choice([1, 2, 3]), 300 if op in ("isect", "lin", "pord") else 100
        if r.random() < 0.04:       # a very long history
            k, n, more = 8, 9000, []
        if op in ("obs", "dbg", "isect") or r.random() < 0.5:
            P.op(op, op in ("isect",), **{x: y for x, y in of.items() if x != "op"}) if op not in NEWOBJ else None
        P.op("par", False, of=of, k=k, n=n, **{"with": more})


NEWOBJ = ("extr_rc", "extr_pose", "cam", "clone", "serde", "jac", "pmat_of")


def s_values(P):
    """C20: histories of calls on several objects and their copies"""
    g, r = P.g, P.g.r
    if r.random() < 0.12:
        return bundle_pairs(P)
    if r.random() < 0.25:
        return s_race(P)
    if r.random() < 0.1:
        return s_again(P)
    if r.random() < 0.25:
        return s_partial(P)
    if r.random() < 0.3:
        return s_ctors(P)
    regs = []
    n = r.choice([1, 2, 3, 4])
    i1 = P.intr()
    e1 = P.extr()
    regs += [("intr", i1), ("extr", e1)]
    if r.random() < 0.5:
        # a similar object: same in some parameter
        m, c = P.info[e1]
        c2 = list(c)
        j = r.randrange(3)
        c2[j] += r.choice([1.0, -2.0, 1e-3, 1e-6, c2[j] * 2.0 ** -r.randrange(12, 52)])
        e2 = P.op("extr_rc", q=P.code[-1].get("q", S(g.quat())), c=S(c2))
        P.info[e2] = (m, c2)
        regs.append(("extr", e2))
        P.op("eq", False, a=e1, b=e2)
    else:
        e2 = P.extr()
        regs.append(("extr", e2))
    kind, p = P.info[i1]
    p2 = list(p)
    p2[r.randrange(len(p2))] *= r.choice([-1.0, 2.0, 1.0 + 2.0 ** -10, 1.0 + 2.0 ** -r.randrange(10, 50)])
    i2 = P.op(kind, p=S(p2))
    P.info[i2] = (kind, p2)
    if kind in ("persp", "ortho"):
        P.op("eq", False, a=i1, b=i2)
    regs.append(("intr", i2))
    cams = []
    for i, e in r.sample([(i1, e1), (i1, e2), (i2, e1), (i2, e2)], 2):
        c = P.cam(i=i, e=e)
        cams.append(c)
        regs.append(("pcam" if kind == "persp" else "cam", c))
    if kind in ("persp", "ortho"):
        P.op("eq", False, a=cams[0], b=cams[1])
    args = {"pts": [P.pts(P.cpoints(n, kind)), P.pts([g.vec() for _ in range(n)])],
            "pix": [P.pix(P.pixels(kind, p, n))], "d": [S(P.dist()), S(P.dist())],
            "pt": P.pts([g.vec()], "s")}
    args["bun"] = P.bundle(n, fr="c", kinds=("so", "sd", "pso", "psd", "p2c"))
    regs.append(("bun", args["bun"]))
    todo = [calls(P, r, regs, args) for _ in range(r.randrange(2, 6))]
    # copies
    for kd, k in r.sample(regs, 2):
        if kd == "intr" and P.info[k][0] not in ("persp", "ortho"):
            continue
        c = P.op("clone", x=k)
        if k in P.info:
            P.info[c] = P.info[k]
        if kd != "cam" or P.info.get(k, (("persp",),))[0][0] in ("persp", "ortho"):
            P.op("eq", False, a=k, b=c)
        regs.append((kd, c))
    todo += [calls(P, r, regs, args) for _ in range(r.randrange(2, 6))]
    seq = todo * 2
    r.shuffle(seq)
    for f in seq:
        f()
        if r.random() < 0.06:
            k = r.choice([k for kd, k in regs])
            P.op("dbg", False, x=k)
    # the same calls by several threads, while others make other calls
    if r.random() < 0.3:
        for _ in range(2):
            P.op("isect", rays=S(raylist(P)))
    kinds = ("w2c", "c2w", "w2p", "p2w", "c2p", "p2c", "por", "pord", "obs", "cam_mat", "r2w", "lin", "isect", "dbg",
             "extr_rc", "extr_pose", "extr_view", "persp", "ortho", "cam", "jac", "clone", "pmat_of", "bso", "bsd")
    can = [{k: v for k, v in ins.items() if k != "o"} for ins in P.code if ins["op"] in kinds]
    for _ in range(r.randrange(0, 4)):
        of = r.choice(can)
        like = [x for x in can if x["op"] == of["op"] and x != of]
        more = [r.choice(like if like and r.random() < 0.7 else can) for _ in range(r.choice([0, 1, 2, 4]))]
        P.op("par", False, of=of, k=r.choice([1, 2, 3, 4]), n=r.choice([1, 10, 40]), **{"with": more})
    for kd, k in r.sample(regs, min(3, len(regs))):
        P.op("obs", False, x=k)
    if r.random() < 0.3:
        rays = S(raylist(P))
        sets = [rays, S(raylist(P))] + [variant(r, {"rays": rays, "op": "isect"}, [])["rays"] for _ in range(r.randrange(1, 4))]
        for y in r.choices(sets, k=r.randrange(4, 10)):
            P.op("isect", rays=y)


def s_util(P):
    """C21"""
    g, r = P.g, P.g.r
    for _ in range(r.randrange(1, 3)):
        w, h = r.choice([(4, 3), (8, 6), (16, 9), (10, 10), (1, 1), (0, 5), (20, 15), (33, 7), (7, 33), (2, 40)])
        if r.random() < 0.5:
            w, h = r.randrange(0, 24), r.randrange(0, 24)
        if r.random() < 0.05:
            w, h = r.choice([(64, 48), (100, 90), (257, 3), (3, 1100), (320, 240), (g.newcount(400), g.newcount(300))])
        step = r.choice([1, 1, 2, 3, 5, 7, 10])
        border = min(r.choice([0, 0, 1, 2, 3, 5]), w, h)
        k = r.random()
        if k < 0.1:
            step = r.randrange(1, max(w, h) + 3)
        elif k < 0.25:                  # few pixels of a large image
            w, h = r.choice([(640, 480), (1024, 768), (1920, 1080), (100, 3000), (4096, 64), (r.randrange(1, 5000), r.randrange(1, 5000))])
            step = max(r.choice([16, 17, 20, 25, 32, 50, 64, 100, 128, 256, 500, 640]), max(w, h) // 20)
            border = min(r.choice([0, 1, 5, 10, 16, 50, 100, 400]), w, h)
        eps = r.choice([0.001, 0.01, 0.1, 1e-4, 0.5, 1e-6, 2.0, 7.3]) if g.w == "f64" else r.choice([0.25, 0.5, 3.0])
        if r.random() < 0.3:
            kind = r.choice(["persp", "ortho"])
            if kind == "persp":
                f = g.pos(10, 1000)
                p = [f, f * r.uniform(0.5, 2), r.uniform(-2, 2), r.uniform(0, 30), r.uniform(0, 30)]
            else:
                f = g.pos(0.1, 100)
                p = [f, f * r.uniform(0.5, 2), r.uniform(0, 30), r.uniform(0, 30)]
            if r.random() < 0.2:            # without inverse
                p[r.randrange(2)] = 0.0
                if kind == "persp" and r.random() < 0.7:
                    p[2] = 0.0
            elif r.random() < 0.3:
                p[0] *= r.choice([-1, 1])
                p[1] *= r.choice([-1, 1])
            i = P.op(kind, p=S(p))
        else:
            kind = r.choice(["custx", "custy"])
            p = [r.uniform(-3, 3), r.uniform(-3, 3), 0.0]
            if kind == "custy" and r.random() < 0.5:
                p[2] = r.uniform(-0.1, 0.1)
            k = r.random()
            if k < 0.8:
                gx = list(range(border, max(border, w - border), step)) or [0]
                gy = list(range(border, max(border, h - border), step)) or [0]
                k = r.random()
                if k < 0.3:
                    u, v = r.choice(gx), r.choice(gy)
                elif k < 0.55:
                    u, v = r.choice([gx[0], gx[-1]]), r.choice([gy[0], gy[-1]])
                elif k < 0.8:    # just outside
                    u, v = r.choice([gx[0] - step, gx[-1] + step, gx[0] - 1, gx[-1] + 1]), r.choice(gy)
                    if r.random() < 0.5:
                        u, v = r.choice(gx), r.choice([gy[0] - step, gy[-1] + step, gy[0] - 1, gy[-1] + 1])
                else:
                    u, v = r.randrange(-2, w + 3), r.randrange(-2, h + 3)
                if r.random() < 0.1:
                    u += 0.5
                d = [eps * r.choice([0.25, 4, 10, -10, 100, -4, -0.25, 1000, 1.1, 0.9, 1.01, 0.99, 1.2, -1.3, 2, -1.1, -0.9, 1.5, -1.5, 0.0, float("nan")]) for _ in "uv"]
                if r.random() < 0.7:
                    d[r.randrange(2)] = 0.0
                i = P.op(kind, p=S(p), spike=S([float(u), float(v)] + d))
            else:
                i = P.op(kind, p=S(p))
        P.op("util", False, i=i, w=w, h=h, step=step, border=border, eps=S(eps))


def s_total(P):
    """C24: any number at all"""
    g, r = P.g, P.g.r
    big = 308 if g.w == "f64" else 38
    bad = [math.nan, math.inf, -math.inf, 0.0, -0.0, 10.0 ** big, -(10.0 ** big), 10.0 ** -big, 5e-324 if g.w == "f64" else 1e-45,
           1e154 if g.w == "f64" else 1e19, 1e-160 if g.w == "f64" else 1e-20, 1.0, -1.0]
    def num():
        k = r.random()
        if k < 0.3:
            return r.choice(bad)
        if k < 0.4:
            return r.choice([1.0, -1.0]) * 10 ** r.uniform(-big, big)
        return g.num()
    def vec(n=3):
        k = r.random()
        if k < 0.3:
            return [0.0] * n
        if k < 0.4:
            return [r.choice(bad)] * n
        return [num() if r.random() < 0.5 else g.num() for _ in range(n)]
    e = []
    for _ in range(2):
        k = r.randrange(3)
        if k == 0:
            e.append(P.op("extr_rc", q=S(vec(4) if r.random() < 0.5 else g.quat()), c=S(vec())))
        elif k == 1:
            e.append(P.op("extr_pose", q=S(vec(4) if r.random() < 0.5 else g.quat()), t=S(vec())))
        else:
            c = vec()
            l = c if r.random() < 0.3 else vec()
            up = vec()
            if r.random() < 0.3:
                up = [l[i] - c[i] for i in range(3)]
            e.append(P.op("extr_view", c=S(c), l=S(l), up=S(up)))
    i = [P.op("persp", p=S(vec(5))), P.op("ortho", p=S(vec(4)))]
    if r.random() < 0.5:
        i.append(P.op("norm34", m=S([num() if (y is None or r.random() < 0.15) else y for y in NORM])))
    cams = [P.op("cam", i=r.choice(i), e=r.choice(e)) for _ in range(2)]
    if r.random() < 0.6:
        m = [num() for _ in range(12)]
        k = r.random()
        if k < 0.3:
            m[8:12] = m[0:4]
        elif k < 0.5:
            m[8:11] = [0.0, 0.0, 0.0]
        elif k < 0.6:
            m = [0.0] * 12
        cams.append(P.op("pmat_cam", m=S(m)))
    n = r.choice([0, 0, 0, 1, 1, 2, 3, 4, 5, 8, 10, 16, 32, 70])
    lay = g.lay(n)
    pts = [P.pts([vec() for _ in range(n)], lay), P.pts([vec()], "s")]
    pix = P.pix([vec(2) for _ in range(n)], lay)
    buns = []
    for _ in range(r.randrange(4, 12)):
        k = r.randrange(15)
        if k == 0:
            pts.append(P.op(r.choice(["w2c", "c2w"]), e=r.choice(e + cams), x=r.choice(pts)))
        elif k == 1:
            P.op("c2p", i=r.choice(i), x=r.choice(pts))
        elif k == 2:
            buns.append(P.op("p2c", i=r.choice(i), x=pix))
        elif k == 3:
            P.op("w2p", cam=r.choice(cams), x=r.choice(pts))
        elif k == 4:
            buns.append(P.op("p2w", cam=r.choice(cams), x=pix))
        elif k == 5:
            buns.append(P.op(r.choice(["bso", "bsd"]), fr=r.choice("wc"), rows=S([vec() for _ in range(n)]), lay=lay))
        elif k == 6:
            buns.append(P.op("bpose", so=r.random() < 0.5, fr=r.choice("wcc"), rows=S([vec() for _ in range(n)]), lay=lay, q=S(vec(4)), t=S(vec())))
        elif k == 7:
            P.op("cam_mat", False, cam=r.choice(cams))
            P.op("lin", False, j=P.op("jac", cam=r.choice(cams)), x=pts[1])
        elif k == 8:
            nr = r.choice([0, 1, 2, 2, 3, 5])
            rays = [vec() + vec() for _ in range(nr)]
            if nr > 1 and r.random() < 0.3:
                rays[1] = rays[0]
            if r.random() < 0.3:
                rays = [x[:3] + [y * 1e-200 for y in x[3:]] for x in rays]
            P.op("isect", rays=S(rays), fr=r.choice("wc"))
        elif k == 9:
            P.op("pmat_of", cam=r.choice(cams), k=S(num()))
        elif k == 10:
            P.op(r.choice(["obs", "dbg"]), False, x=r.choice(e + i + cams))
        elif k == 11:
            P.op("serde", x=r.choice(e + i + cams), route=r.choice(["value", "bincode"]))
        elif buns:
            b = r.choice(buns)
            j = r.randrange(5)
            if j == 0:
                P.op("por", b=b)
            elif j == 1:
                P.op("pord", b=b, d=S(num()))
            elif j == 2:
                P.op("bobs", False, b=b)
            elif j == 3:
                P.op("single", b=b)
            else:
                buns.append(P.op("r2w", e=r.choice(e), b=b))


def s_mixed(P):
    r = P.g.r
    for s in r.sample([s_persp, s_ortho, s_frames, s_poses, s_cam, s_bundle, s_r2w, s_roundtrip, s_isect, s_pmat, s_cammat, s_jac], 2):
        s(P)


PROFILES = {   # scenarios with weights, memo
    "C01": ([(s_persp, 8), (s_norm34, 1), (s_mixed, 1)], False),
    "C02": ([(s_persp, 9), (s_mixed, 1)], False),
    "C03": ([(s_ortho, 1)], False),
    "C04": ([(s_frames, 9), (s_mixed, 1)], False),
    "C05": ([(s_poses, 8), (s_pmat, 1), (s_mixed, 1)], False),
    "C06": ([(s_view, 1)], False),
    "C07": ([(s_rt, 8), (s_poses, 2)], False),
    "C08": ([(s_cam, 1)], False),
    "C09": ([(s_roundtrip, 8), (s_persp, 1), (s_ortho, 1)], False),
    "C10": ([(s_bundle, 9), (s_r2w, 1)], False),
    "C11": ([(s_r2w, 1)], False),
    "C12": ([(s_rows, 1)], True),
    "C13": ([(s_isect, 9), (s_tri, 1)], False),
    "C14": ([(s_isect_inv, 1)], False),
    "C15": ([(s_pmat, 1)], False),
    "C16": ([(s_cammat, 1)], False),
    "C17": ([(s_jac, 1)], False),
    "C18": ([(s_serde, 1)], True),
    "C19": ([(s_norm34, 1)], False),
    "C20": ([(s_values, 1)], True),
    "C21": ([(s_util, 1)], False),
    "C22": ([(s_persp, 2), (s_ortho, 1), (s_frames, 2), (s_poses, 2), (s_cam, 2), (s_bundle, 2), (s_r2w, 1), (s_isect, 2), (s_pmat, 2),
             (s_cammat, 1), (s_jac, 1), (s_norm34, 1), (s_rows, 1), (s_total, 2)], True),
    "C23": ([(s_tri, 1)], False),
    "C25": ([(s_text, 9), (s_values, 1)], False),
    "C24": ([(s_total, 9), (s_mixed, 1), (s_rows, 1), (s_serde, 1)], False),
}


def static(P, r):
    """Mostly matrices of a static size: only they exist in all configurations."""
    for ins in P.code:
        if "lay" in ins and "rows" in ins and r.random() < 0.9:
            n = len(ins["rows"])
            if n == 0:
                continue
            n = max(m for m in STATIC if m <= n)
            ins["rows"] = ins["rows"][:n]
            if ins["lay"] == "d" or n not in (1, 3):
                ins["lay"] = "s"


# What works row by row.
ROWWISE = {"extr_rc", "extr_pose", "extr_view", "extr_repose", "extr_rerc", "extr_of", "persp", "ortho", "norm34", "cam", "pmat_cam", "pmat_of", "cust",
           "cam_mat", "obs", "w2c", "c2w", "c2p", "p2c", "w2p", "p2w", "pts", "pix", "bso", "bsd", "bpose", "bobs", "r2w", "por", "pord"}
TABLES = {"pts", "pix", "bso", "bsd", "bpose"}


def widen(P, n):
    """Repeats the rows of the tables of a program, to make very long ones."""
    del P.code[24:]
    ts = [i for i in P.code if i["op"] in TABLES and len(i["rows"]) > 1]
    if not ts or any(i["op"] not in ROWWISE for i in P.code):
        return False
    for i in ts:
        if len(i["rows"]) > 5:
            i["rows"] = i["rows"][:5]
        i["lay"] = "d"
        i["tile"] = n
    P.wide = n
    return True


LARGE = {"C12": 50}
WIDE = {"C12": 31}
F32 = {"C13": 0.35, "C14": 0.3, "C15": 0.3, "C23": 0.3}

NUMERIC = ("p", "rows", "c", "l", "up", "t", "q", "rays", "d", "m")
LENGTHS = ("rows", "c", "l", "t")


def numerals(x, out):
    """the numerals in an argument"""
    if isinstance(x, str):
        out.append(x)
    elif isinstance(x, list):
        for y in x:
            numerals(y, out)
    return out


def renumber(x, f):
    return f(x) if isinstance(x, str) else [renumber(y, f) for y in x] if isinstance(x, list) else x


def fl(x):
    if "@" in x:
        m, e = x.split("@")
        return math.ldexp(int(m), int(e))
    return float(x)


def twist(P):
    """Coincidences: numbers of the program that are equal, opposite or close to each other; rows that
    are the same as others; other units of length.  What holds then is up to the specification."""
    g, r = P.g, P.g.r
    args = [(i, k) for i in P.code for k in NUMERIC if k in i and isinstance(i[k], (str, list)) and i["op"] not in ("serde", "util")]
    pool = [x for i, k in args for x in numerals(i[k], [])]
    if not pool:
        return
    k = r.random()
    if k < 0.25:                        # the unit of length
        b = 2.0 ** (r.randrange(-34, 31) if g.w == "f64" else r.randrange(-10, 9))
        def f(x):
            y = fl(x) * b
            return S(y) if abs(y) < 1e30 else x
        for i, a in args:
            if a in LENGTHS and i["op"] != "pix" or a == "d" and i["op"] == "pord":
                i[a] = renumber(i[a], f)
        return
    for _ in range(r.randrange(1, 4)):
        i, a = r.choice(args)
        mine = numerals(i[a], [])
        if not mine:
            continue
        x = r.choice(mine)
        y = r.choice(mine) if r.random() < 0.5 else r.choice(pool)
        if not math.isfinite(fl(x)) or not math.isfinite(fl(y)):
            continue
        z = r.choice([fl(y)] * 4 + [-fl(y), -fl(y), -fl(x), 0.0, 1.0, -1.0, fl(y) * (1 + r.choice([-1, 1]) * 2.0 ** r.randrange(-24, -8)),
                      fl(y) + 1, 1 / fl(y) if abs(fl(y)) > 1e-9 else 0.0, fl(x) * 2.0 ** r.randrange(-30, 10)])
        if abs(z) > (1e20 if g.w == "f64" else 1e9):
            continue
        if r.random() < 0.6:            # wherever that number is
            for j, b in args:
                j[b] = renumber(j[b], lambda v: S(z) if v == x else v)
        else:
            done = []
            def f(v):
                if v == x and not done:
                    done.append(1)
                    return S(z)
                return v
            i[a] = renumber(i[a], f)
    if r.random() < 0.2:                # a vector that is another one
        vs = [(i, a) for i, a in args if isinstance(i[a], list) and i[a] and isinstance(i[a][0], str)]
        vs += [(i[a], j) for i, a in args if isinstance(i[a], list) for j in range(len(i[a])) if isinstance(i[a][j], list)]
        if len(vs) > 1:
            (d, a), (e, b) = r.choice(vs), r.choice(vs)
            if len(d[a]) == len(e[b]) and all(isinstance(x, str) for x in d[a] + e[b]):
                d[a] = list(e[b])


REGS = ("x", "e", "i", "cam", "b", "j", "a", "like")


def refs(ins, f):
    """an instruction with its registers renamed"""
    out = {}
    for k, v in ins.items():
        if k == "of":
            v = refs(v, f)
        elif k in REGS and isinstance(v, int):
            v = f(v)
        elif k == "rays" and v and isinstance(v[0], int):
            v = [f(y) for y in v]
        out[k] = v
    return out


def variant(r, ins, others):
    """the instruction with similar numbers: permuted, mirrored, in another order, with a part as before"""
    ins = dict(ins)
    keys = [k for k in NUMERIC if k in ins and isinstance(ins[k], list) and numerals(ins[k], [])]
    one = r.choice(keys)
    perm = list(range(3))
    r.shuffle(perm)
    sign = [r.choice([1, -1]) for _ in range(3)]
    k = r.random()

    def neg(x):
        return x if x in ("0", "nan", "inf", "-inf") else x[1:] if x[0] == "-" else "-" + x

    def turn(v):
        n = len(v)
        if n in (3, 4):         # a vector; the imaginary part of a quaternion
            t = v[-3:]
            return v[:-3] + [t[j] if sg > 0 else neg(t[j]) for j, sg in zip(perm, sign)]
        if n == 6:              # a ray: all of it, or a half
            return turn(v[:3]) + (turn(v[3:]) if k < 0.3 else v[3:]) if k < 0.45 else v[:3] + turn(v[3:])
        v = list(v)
        i, j = r.randrange(n), r.randrange(n)
        v[i], v[j] = v[j], v[i]
        if r.random() < 0.5:
            v[i] = neg(v[i])
        return v

    def nudge(v):
        v = list(v)
        j = r.randrange(len(v))
        y = fl(v[j])
        if math.isfinite(y):
            v[j] = S(r.choice([y * (1 + r.choice([-1, 1]) * 2.0 ** -r.randrange(4, 45)), y + 1, 2 * y, -y, 0.0, y + 2.0 ** -r.randrange(4, 30)]))
        return v

    same = [o for o in others if o is not ins and o["op"] == ins["op"] and one in o and isinstance(o[one], list)]
    for key in keys:
        v = ins[key]
        if not v:
            continue
        if key == one and k > 0.9 and same:             # of another one
            v = r.choice(same)[key]
        elif isinstance(v[0], list):
            if k < 0.6:
                v = [turn(x) for x in v]
            elif k < 0.7 and len(v) > 1:
                v = v[::-1] if r.random() < 0.5 else v[1:] + v[:1]
            elif k < 0.8:
                j = r.randrange(len(v))
                v = [nudge(x) if i == j else x for i, x in enumerate(v)]
            else:
                v = [nudge(x) for x in v]
        elif key == one or k < 0.2:
            v = turn(v) if k < 0.6 else nudge(v)
        ins[key] = v
    return ins


def again(P, r):
    """Some of the calls again, with similar arguments, and then with the former ones"""
    lits = [j for j, i in enumerate(P.code) if any(k in i and isinstance(i[k], list) and numerals(i[k], []) for k in NUMERIC)
            and i["op"] not in ("serde", "serde_read", "util")]
    if not lits:
        return
    old = list(P.code)
    k = r.choice(lits)
    new = {}

    def emit(ins):
        ins = dict(ins)
        o = ins.pop("o", None)
        n = P.op(ins.pop("op"), o is not None, **ins)
        if o is not None:
            new[o] = n

    todo = [k]
    seen = {old[k].get("o")}
    for j in range(k + 1, len(old)):
        used = []
        refs(old[j], lambda x: used.append(x) or x)
        if seen.intersection(used):
            todo.append(j)
            if "o" in old[j]:
                seen.add(old[j]["o"])
    heads = [old[k]] + [variant(r, old[k], old) for n in range(r.choice([1, 1, 2, 3]))]
    for h in heads[1:] + r.choices(heads, k=r.randrange(0, 4)):
        new.clear()
        emit(h)
        for j in todo[1:12]:
            emit(refs(old[j], lambda x: new.get(x, x)))


AGAIN = {"C20": 0.35, "C13": 0.35, "C14": 0.3, "C23": 0.25, "C15": 0.25}


def generate(profile, seed, count, repo):
    lits, new = literals(repo)
    scen, memo = PROFILES[profile]
    names = [s for s, _ in scen]
    wts = [w for _, w in scen]
    due = nwide = 0
    s_rows.kind = -1
    for j in range(count):
        rnd = random.Random(f"{profile}/{seed}/{j}")
        w = "f32" if rnd.random() < F32.get(profile, 0.2) else "f64"
        g = G(rnd, w, lits, new)
        s = rnd.choices(names, wts)[0]
        if j % LARGE.get(profile, 150) == 20:
            g.large = g.largecount()
        large = g.large
        P = Prog(g, memo=memo, adv=s is s_total)
        s(P)
        if not P.adv and rnd.random() < 0.3:
            twist(P)
        if not P.adv and not large and len(P.code) < 40 and rnd.random() < AGAIN.get(profile, 0.12):
            again(P, rnd)
        if profile == "C22":
            static(P, rnd)
        due += profile != "C22" and j % 450 % WIDE.get(profile, 90) == 30
        if due and not large and widen(P, (65539, 4099, 66003, 8197, 132001)[nwide % 5]):
            due -= 1
            nwide += 1
        yield P.done(f"{s.__name__[2:]}-{seed}-{j}")


if __name__ == "__main__":
    if sys.argv[1] == "--literals":
        print("\n".join(sorted({repr(x) for x in literals(sys.argv[2])[0]})))
        sys.exit(0)
    prof, seed, count, repo = sys.argv[1], sys.argv[2], int(sys.argv[3]), sys.argv[4]
    for p in generate(prof, seed, count, repo):
        print(json.dumps(p, separators=(",", ":")))
