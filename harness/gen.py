"""Random generation of step functions through every construction route (inputs only: the oracle is the spec)."""
import random
from fractions import Fraction as F

from domains import DATELIKE, NUMERIC
from session import Session

NAN = [0, 0]
POOLS = {
    "small": [[-1, 1], [0, 1], [1, 1], [2, 1]],
    "bool": [[0, 1], [1, 1]],
    "ints": [[-3, 1], [-2, 1], [-1, 1], [0, 1], [1, 1], [3, 1], [4, 1]],
    "half": [[-3, 2], [0, 1], [1, 2], [1, 1], [2, 1], [-1, 4]],
    "pos": [[1, 1], [2, 1], [4, 1]],
    "big": [[1000000, 1], [1000001, 1], [999999, 1], [0, 1], [-1000000, 1], [16777217, 1], [16777216, 1]],
    "near": [[1, 1], [2**20 + 1, 2**20], [2**20 - 1, 2**20], [2**21 + 1, 2**20], [2, 1], [0, 1], [2**22 + 1, 2**22], [1, 1]],
    "tiny": [[1, 2**20], [1, 2**19], [0, 1], [1, 1], [-1, 2**20], [1, 2**27], [3, 2**27], [-1, 2**27]],
    "third": [[1, 3], [-2, 3], [0, 1], [1, 1], [1, 6]],
}
WEIGHTS = {"small": 6, "bool": 2, "ints": 4, "half": 4, "pos": 1, "big": 1, "tiny": 1, "near": 1, "third": 0}


def fr(v):
    return F(v[0], v[1])


def enc(q):
    return [q.numerator, q.denominator]


def pow2(n):
    n = abs(n)
    return n > 0 and n & (n - 1) == 0


class GenStop(Exception):
    """the generator has nothing to continue with (an object it wanted was not produced)"""


class G:
    def __init__(self, seed, domains=None, closed=None, pool=None, mixed=0.0, big=False, huge=False, exclude_pools=()):
        r = self.r = random.Random(seed)
        if domains is None:
            x = r.random()
            if x < 0.3:
                dom = "int"
            elif x < 0.45:
                dom = "float"
            elif x < 0.57:
                dom = r.choice(NUMERIC)
            else:
                dom = r.choice(DATELIKE)
        else:
            dom = r.choice(domains)
        self.S = Session(dom)
        self.dom = self.S.dom
        self.closed = closed or r.choice(["left", "right"])
        self.mixed = mixed
        w = {k: v for k, v in WEIGHTS.items() if k not in exclude_pools}
        self.poolname = pool or r.choices(list(w), list(w.values()))[0]
        self.pool = POOLS[self.poolname]
        base = r.choice([0, 0, -4, 3])
        self.width = r.choice([4, 6, 9, 12])
        if big:
            self.width = 70
        if huge:
            self.giant = r.random() < 0.3
            self.width = (1400 if huge == 1 else 330) if self.giant else 260
        self.ticks = list(range(base, base + self.width + 1))
        if self.dom.halves:
            self.ticks = [2 * t for t in self.ticks]
        self.hot = sorted(r.sample(self.ticks, min(len(self.ticks), r.choice([3, 4, 5, 7]))))
        self.pnan = r.choice([0.0, 0.0, 0.2, 0.4])
        self.big = big
        self.huge = huge
        self.simple = False

    # ------------------------------------------------------------------ primitives
    def h(self, **k):
        k.setdefault("seed", self.r.getrandbits(30))
        return k

    def do(self, op, h=None, **a):
        for v in a.values():
            if isinstance(v, list) and v and v[0] in ("o", "l") and (v[1] is None or v[0] == "l" and None in v[1]):
                raise GenStop()
        if self.poolname in ("tiny", "near") and op == "agg" and a.get("f") == "mean" and len(a["ids"]) & (len(a["ids"]) - 1):
            a["f"] = "sum"  # a third of a tiny value cannot be recovered from a float
        return self.S.do(op, self.h(**(h or {})), **a)

    def do1(self, op, h=None, **a):
        ids = self.do(op, h, **a)
        return ids[0] if ids else None

    def tick(self):
        r = self.r
        return r.choice(self.hot) if r.random() < 0.75 else r.choice(self.ticks)

    def wide_tick(self):
        r = self.r
        if self.dom.halves and r.random() < 0.5:
            return r.choice(self.ticks) + r.choice([-1, 1])
        return r.choice([self.ticks[0] - 2, self.ticks[-1] + 2]) if r.random() < 0.1 else self.tick()

    def val(self):
        return self.r.choice(self.pool)

    def side(self):
        if self.mixed and self.r.random() < self.mixed:
            return "right" if self.closed == "left" else "left"
        return self.closed

    def route(self):
        return self.r.choice(["scalar", "scalar", "vector", "vector", "frame", "ctor", "ctorframe"])

    def target(self, nan=True, nsteps=None):
        """a random minimal function (initial, points, values), values as pairs"""
        r = self.r
        if nsteps is None:
            nsteps = r.choice([0, 1, 2, 2, 3, 3, 4, 5])
            if self.big:
                nsteps = r.randint(25, 60)
            if self.huge:
                nsteps = r.randint(257, 560 if self.width > 560 else 320) if self.giant else r.randint(65, 140)
        src = self.hot if r.random() < 0.7 and nsteps <= len(self.hot) else self.ticks
        nsteps = min(nsteps, len(src))
        p = sorted(r.sample(src, nsteps))
        pnan = self.pnan if nan else 0.0

        def pick(prev):
            for _ in range(30):
                v = NAN if r.random() < pnan else self.val()
                if v != prev:
                    return v
            return [5, 1] if prev != [5, 1] else [6, 1]

        i = pick(None)
        if i != NAN and r.random() < 0.4:
            i = [0, 1]
        v = []
        prev = i
        for _ in p:
            prev = pick(prev)
            v.append(prev)
        return i, p, v

    def triples(self, i, p, v):
        """triples whose layering on the constant i gives the target (no NaN)"""
        r = self.r
        ts = []
        style = r.choice(["delta", "interval", "mix"])
        prev = fr(i)
        if style == "delta":
            for t, x in zip(p, v):
                d = fr(x) - prev
                prev = fr(x)
                ts.append({"s": [t], "e": [], "v": enc(d)} if r.random() < 0.7 else {"s": [], "e": [t], "v": enc(-d)})
            off = sum((-fr(t["v"]) for t in ts if not t["s"]), F(0))
            if off:
                ts.append({"s": [], "e": [], "v": enc(off)})
        else:
            for k, (t, x) in enumerate(zip(p, v)):
                d = fr(x) - fr(i)
                e = [p[k + 1]] if k + 1 < len(p) else []
                if d:
                    ts.append({"s": [t], "e": e, "v": enc(d)})
                if style == "mix" and r.random() < 0.3:
                    a, b, w = self.tick(), self.tick(), self.val()
                    ts.append({"s": [a], "e": [b], "v": w})
                    if r.random() < 0.5:
                        ts.append({"s": [b], "e": [a], "v": w})
                    else:
                        ts.append({"s": [a], "e": [b], "v": enc(-fr(w))})
        r.shuffle(ts)
        return ts

    def construct(self, i, p, v, c):
        """a directly constructed object (no NaN)"""
        r = self.r
        if p and r.random() < 0.25:
            return self.fromvals(i, p, v, c)
        ts = self.triples(i, p, v)
        i0 = i
        if ts and r.random() < 0.25 and fr(i) != 0:
            ts.insert(r.randrange(len(ts) + 1), {"s": [], "e": [], "v": i})
            i0 = [0, 1]
        if len(ts) > 1 and r.random() < 0.4:
            k = r.randint(1, len(ts) - 1)
            x = self.do1("new", {"route": self.route()}, c=c, i=i0, ts=ts[:k])
            self.do("layer", {"route": self.r.choice(["scalar", "vector", "frame"])}, a=["o", x], ts=ts[k:])
            return x
        return self.do1("new", {"route": self.route()}, c=c, i=i0, ts=ts)

    def fromvals(self, i, p, v, c):
        r = self.r
        if r.random() < 0.15:  # redundant points
            q = [(t, x) for t, x in zip(p, v)]
            for t in self.ticks:
                if t not in p and r.random() < 0.3:
                    prev = [x for (u, x) in zip(p, v) if u < t]
                    q.append((t, prev[-1] if prev else i))
            q.sort(key=lambda z: z[0])
            p, v = [a for a, _ in q], [b for _, b in q]
        return self.do1("fromvals", {}, c=c, i=i, p=p, v=v)

    def realise_form(self, tgt, c, form):
        """an object holding the function in a given internal form (Impl.tla), as far as the public interface allows:
        values only, step changes only, both, or with computed statistics"""
        i, p, v = tgt
        defined = i != NAN and NAN not in v
        if not p:
            x = self.do1("new", {}, c=c, i=i, ts=[])
        elif form == "changes" and defined:
            x = self.do1("new", {"route": self.route()}, c=c, i=i, ts=self.triples(i, p, v))
        else:
            x = self.do1("fromvals", {}, c=c, i=i, p=p, v=v)
            if form == "both":
                self.do("touch", {}, a=["o", x], f="changes")
        if form == "stats":
            self.do("touch", {}, a=["o", x], f="stats")
            self.do("touch", {}, a=["o", x], f="dist")
        return x

    def realise(self, tgt, c=None):
        r = self.r
        i, p, v = tgt
        c = c or self.side()
        hasnan = i == NAN or NAN in v
        if not hasnan:
            x = self.construct(i, p, v, c)
        else:
            if not p:
                how = r.choice(["new", "nanop"])
                if how == "new" or self.simple:
                    x = self.do1("new", {}, c=c, i=NAN, ts=[])
                else:
                    y = self.do1("new", {}, c=c, i=[0, 1], ts=[])
                    x = self.do1("bin", {}, f=r.choice(["add", "mul", "sub"]), a=["o", y], b=["s", NAN])
                return x
            how = r.choice(["fromvals", "fromvals", "mask", "where", "clip", "div", "addnan", "undefmask"])
            if self.simple:
                how = r.choice(["fromvals", "fromvals", "clip"])
            nn = [k for k in range(-1, len(p)) if (i if k < 0 else v[k]) == NAN]
            if how == "clip":
                inner = [k for k in nn if k not in (-1, len(p) - 1)]
                if inner or not nn:
                    how = "fromvals"
            if how == "fromvals":
                x = self.fromvals(i, p, v, c)
            else:
                fill = self.r.choice([[7, 1], [0, 1], [1, 1], [2, 1]])
                bi = fill if i == NAN else i
                bv = [fill if y == NAN else y for y in v]
                bp, bw, prev = [], [], bi
                for t, y in zip(p, bv):
                    if y != prev:
                        bp.append(t)
                        bw.append(y)
                        prev = y
                b = self.construct(bi, bp, bw, c)
                if how == "clip":
                    lo = [p[0]] if -1 in nn else []
                    hi = [p[-1]] if len(p) - 1 in nn else []
                    if lo and hi and lo == hi:
                        return self.fromvals(i, p, v, c)
                    x = self.do1(r.choice(["clip", "wheretup"]), {}, a=["o", b], lo=lo, hi=hi)
                else:
                    on, off = (r.choice([[1, 1], [2, 1], [-1, 1]]), [0, 1])
                    if how in ("where", "div", "addnan"):
                        on, off = off, on
                    if how == "addnan":
                        on, off = NAN, [0, 1]
                    if how == "undefmask":
                        on = NAN
                    mi, mp, mv = (on if i == NAN else off), [], []
                    prev = mi
                    for t, y in zip(p, v):
                        z = on if y == NAN else off
                        if z != prev:
                            mp.append(t)
                            mv.append(z)
                            prev = z
                    if how == "div":
                        mi, mv = [([1, 1] if z != [0, 1] else z) for z in [mi]][0], [[1, 1] if z != [0, 1] else z for z in mv]
                    if NAN in [mi] + mv:
                        if not mp:
                            m = self.do1("new", {}, c=c, i=NAN, ts=[])
                        else:
                            m = self.do1("fromvals", {}, c=c, i=mi, p=mp, v=mv)
                    else:
                        m = self.construct(mi, mp, mv, c)
                    if how in ("mask", "undefmask"):
                        x = self.do1("mask", {}, a=["o", b], b=["o", m])
                    elif how == "where":
                        x = self.do1("where", {}, a=["o", b], b=["o", m])
                    elif how == "div":
                        x = self.do1("bin", {}, f="div", a=["o", b], b=["o", m])
                    else:
                        ab = (b, m) if r.random() < 0.5 else (m, b)
                        x = self.do1("bin", {}, f="add", a=["o", ab[0]], b=["o", ab[1]])
        if not self.simple and r.random() < 0.3:
            x = self.wrap(x)
        return x

    def wrap(self, x):
        """another object denoting the same function"""
        r = self.r
        w = r.choice(["copy", "negneg", "shift", "plus0", "times1", "fill", "nanfree", "deepneg"])
        if w == "copy":
            return self.do1("copy", {}, a=["o", x])
        if w == "negneg":
            return self.do1("un", {}, f="neg", a=["o", self.do1("un", {}, f="neg", a=["o", x])])
        if w == "shift":
            d = r.randint(-3, 3)
            return self.do1("shift", {}, a=["o", self.do1("shift", {}, a=["o", x], d=d)], d=-d)
        if w == "plus0":
            return self.do1("bin", self.opform(), f=r.choice(["add", "sub"]), a=["o", x], b=["s", [0, 1]])
        if w == "times1":
            if r.random() < 0.5:
                return self.do1("bin", self.opform(), f="mul", a=["s", [1, 1]], b=["o", x])
            return self.do1("bin", self.opform(), f=r.choice(["mul", "div"]), a=["o", x], b=["s", [1, 1]])
        if w == "fill":
            return self.do1("fills", {}, a=["o", x], x=NAN)
        if w == "nanfree":
            return self.do1("clip", {}, a=["o", x], lo=[], hi=[])
        y = self.do1("bin", {}, f="sub", a=["s", [0, 1]], b=["o", x])
        return self.do1("un", {}, f="neg", a=["o", y])

    def fn(self, nan=True, nsteps=None, c=None, touch=True):
        x = self.realise(self.target(nan, nsteps), c)
        if touch:
            self.maybe_touch(x)
        return x

    def maybe_touch(self, x, p=0.5):
        while self.r.random() < p:
            self.do("touch", {}, a=["o", x], f=self.r.choice(["values", "changes", "frame", "points", "limit", "stats", "dist"]))
            p /= 2

    def opform(self):
        return {"form": self.r.choice(["op", "op", "method", "rmethod"])}

    # ------------------------------------------------------------- spec-side guards
    def f(self, x):
        return self.S.info[x - 1]

    def values(self, x):
        f = self.f(x)
        return [f["i"]] + f["v"]

    def exact(self, x, num=2**11, den=2**8):
        return all(v == NAN or (v[1] > 0 and pow2(v[1]) and v[1] <= den and abs(v[0]) <= num * v[1]) for v in self.values(x))

    def divsafe(self, x):
        """dividing by x keeps values exactly representable"""
        return all(v == NAN or v[0] == 0 or pow2(v[0]) and abs(v[0]) <= 64 and v[1] <= 64 for v in self.values(x))

    def small(self, x, n=64):
        return all(v == NAN or (abs(v[0]) <= n and 0 < v[1] <= n) for v in self.values(x))

    def scalar(self, pnan=0.12):
        r = self.r
        if r.random() < pnan:
            return NAN
        return r.choice(self.pool) if r.random() < 0.6 else r.choice([[0, 1], [1, 1], [-1, 1], [2, 1], [1, 2], [-3, 1]])

    def window(self, unbounded=0.4, outside=True, ordered=True):
        r = self.r
        t = self.wide_tick if outside or self.dom.halves and r.random() < 0.4 else self.tick
        a, b = t(), t()
        while a == b:
            b = self.r.choice(self.ticks)
        a, b = min(a, b), max(a, b)
        lo, hi = [a], [b]
        if r.random() < unbounded:
            k = r.choice(["lo", "hi", "both"])
            if k in ("lo", "both"):
                lo = []
            if k in ("hi", "both"):
                hi = []
        return lo, hi

    def triple(self, missing=0.2):
        r = self.r
        s = [] if r.random() < missing else [self.tick()]
        e = [] if r.random() < missing else [self.tick()]
        return {"s": s, "e": e, "v": self.val() if r.random() < 0.8 else [1, 1]}
