"""One family of random drivers per property.  A driver takes a G and issues calls; it never judges."""
import math

import laws
from gen import G, NAN, enc, fr

ARITH = ["add", "sub", "mul", "div"]
REL = ["lt", "le", "gt", "ge", "eq", "ne"]
LOGIC = ["and", "or", "xor"]
UNARY = ["neg", "inv", "bool", "isna", "notna"]
CL4 = ["left", "right", "both", "neither"]
AGGS = ["sum", "mean", "median", "min", "max", "logical_or", "logical_and"]
CONT = ["list", "tuple", "dict", "array", "series", "objseries", "dupseries", "stairsarray", "pandas", "arrops"]

TINY = ("tiny", "near")
NOBT = ("big",) + TINY  # pools whose products are not exactly representable

def O(x):
    return ["o", x]


def pts(g, n=6):
    r = g.r
    if r.random() < 0.02:
        return []
    xs = [g.wide_tick() for _ in range(r.randint(1, n))]
    if r.random() < 0.5:
        xs += list(g.hot)[:4]
        r.shuffle(xs)
    return xs


def binop(g, ops, x=None, y=None):
    """one binary call on random operands (scalars on either side)"""
    r = g.r
    f = r.choice(ops)
    ids = list(range(1, len(g.S.heap) + 1))
    a = O(x or r.choice(ids))
    b = O(y or r.choice(ids))
    k = r.random()
    if k < 0.2:
        a = ["s", g.scalar()]
    elif k < 0.4:
        b = ["s", g.scalar()]
    if f in ("mul", "div") and not all(o[0] == "s" or g.small(o[1], 10**4) for o in (a, b)):
        f = "add" if "add" in ops else r.choice([o for o in ops if o not in ("mul", "div")])
    if g.poolname in NOBT and f in ("mul", "div"):
        if a[0] == "o" and b[0] == "o":
            b = ["s", r.choice([[0, 1], [2, 1], [-1, 1], NAN])]
        elif f == "div" and a[0] == "s" and g.poolname in TINY:
            f = "mul"
    return g.do1("bin", g.opform(), f=f, a=a, b=b)


# --------------------------------------------------------------------------- C01
def c01(g):
    r = g.r
    for _ in range(r.choice([2, 2, 3])):
        g.fn()
    if r.random() < 0.15:
        g.realise((r.choice([[0, 1], [3, 1], NAN]), [], []))
    n = len(g.S.heap)
    for _ in range(r.randint(4, 8)):
        x, y = r.randint(1, n), r.randint(1, n)
        if r.random() < 0.15:
            z = g.do1("un", {}, f="neg", a=O(x))
        else:
            z = binop(g, ARITH, x, y)
        if z and r.random() < 0.15:
            g.do("limit", {"forms": 2}, a=O(z), xs=pts(g), side=r.choice(["left", "right"]))
        if z and r.random() < 0.1:
            g.do("touch", {}, a=O(z), f="changes")
            if g.exact(z) and g.small(z):
                g.do1("bin", {}, f="add", a=O(z), b=O(x))
        if r.random() < 0.2:
            g.maybe_touch(x)


def c01_big(g):
    for _ in range(2):
        g.fn()
    for f in g.r.sample(ARITH, 3):
        g.do1("bin", g.opform(), f=f, a=O(1), b=O(2))
    g.do1("un", {}, f="neg", a=O(1))


# --------------------------------------------------------------------------- C02
def rec_fn(g):
    """a receiver for layering histories"""
    r = g.r
    k = r.random()
    if k < 0.35:
        return g.do1("new", {}, c=g.side(), i=r.choice([[0, 1], [0, 1], [1, 1], [-2, 1], g.val()]), ts=[])
    if k < 0.45:
        return g.do1("new", {}, c=g.side(), i=NAN, ts=[])
    return g.fn()


def layer_call(g, x, n=None):
    r = g.r
    n = n if n is not None else r.choice([1, 1, 2, 3, 5])
    ts = [g.triple() for _ in range(n)]
    k = r.random()
    if n > 1 and k < 0.2:  # repeat an interval
        ts[-1] = {**ts[0], "v": r.choice([ts[0]["v"], enc(-fr(ts[0]["v"]))])}
    elif k < 0.3 and ts[0]["s"]:
        ts[0] = {**ts[0], "e": list(ts[0]["s"])}
    g.do("layer", {"route": r.choice(["scalar", "vector", "vector", "frame"])}, a=O(x), ts=ts)
    return ts


def keep_layer(g, x, route=None):
    """layer between existing step points: the steps stay where they are, only the values change"""
    r = g.r
    f = g.f(x)
    ps = f["p"]
    if not ps:
        return []
    k = r.random()
    if k < 0.7 and len(ps) > 1:
        s, e = sorted(r.sample(range(len(ps)), 2))
        s, e = [ps[s]], [ps[e]]
    elif k < 0.85:
        s, e = [r.choice(ps)], []
    else:
        s, e = [], [r.choice(ps)]
    ts = [{"s": s, "e": e, "v": r.choice([g.val(), [1, 1]] + ([[3, 1], [-5, 1]] if max(abs(v[0]) + v[1] for v in g.pool) < 1000 else []))}]
    g.do("layer", {"route": route or r.choice(["scalar", "scalar", "vector", "frame"])}, a=O(x), ts=ts)
    return ts


def again(g, query, x, change):
    """the same query (same arguments, as far as the guards allow) before and after a change"""
    a = g.r.getstate()
    query(g, x)
    change(g, x)
    b = g.r.getstate()
    g.r.setstate(a)
    query(g, x)
    g.r.setstate(b)


def c02_keep(g):
    """everything cached about the function before a layering which keeps its step points"""
    r = g.r
    x = g.fn(nsteps=r.choice([2, 3, 3, 4]))
    for _ in range(r.randint(2, 4)):
        g.maybe_touch(x, 1.0)
        keep_layer(g, x)
        w = r.choice(["views", "limit", "copy", "shift", "ident"])
        if w == "views":
            g.do("views", {}, a=O(x))
        elif w == "limit":
            g.do("limit", {"forms": 3}, a=O(x), xs=pts(g), side=r.choice(["left", "right"]))
        elif w == "ident":
            y = g.do1("copy", {}, a=O(x))
            keep_layer(g, y)
            g.do("ident", {}, a=O(x), b=O(y))
        elif w == "copy":
            y = g.do1("copy", {}, a=O(x))
            g.do("views", {}, a=O(y))
        else:
            g.do1("shift", {}, a=O(x), d=r.randint(-3, 3))


def c02(g):
    r = g.r
    x = rec_fn(g)
    y = g.do1("copy", {}, a=O(x)) if r.random() < 0.4 else None
    hist = []
    for _ in range(r.randint(1, 4)):
        if r.random() < 0.3:
            g.maybe_touch(x, 1.0)
        hist += layer_call(g, x)
        if r.random() < 0.15:
            back = [{**t, "v": enc(-fr(t["v"]))} for t in hist[-2:]]
            g.do("layer", {"route": r.choice(["scalar", "vector", "frame"])}, a=O(x), ts=back)
            hist += back
    if r.random() < 0.4:
        g.do("views", {}, a=O(x))
    if r.random() < 0.4:
        g.do("limit", {"forms": 3}, a=O(x), xs=pts(g), side=r.choice(["left", "right"]))
    if y:
        # the same triples in another order and through another route
        ts = list(hist)
        r.shuffle(ts)
        k = r.randint(0, len(ts))
        for part in (ts[:k], ts[k:]):
            if part:
                g.do("layer", {"route": r.choice(["scalar", "vector", "frame"])}, a=O(y), ts=part)
        g.do("ident", {}, a=O(x), b=O(y))


def c02_ctor(g):
    """constructor shorthand: every route, single and many triples"""
    r = g.r
    ts = [g.triple() for _ in range(r.choice([1, 1, 2, 3, 6]))]
    i = r.choice([[0, 1], [0, 1], [1, 1], g.val()])
    c = g.side()
    routes = ["scalar", "vector", "frame", "ctor", "ctorframe"] + (["ctorscalar"] if len(ts) == 1 else [])
    for rt in r.sample(routes, 3):
        g.do1("new", {"route": rt}, c=c, i=i, ts=ts)
    g.do("ident", {}, a=O(1), b=O(2))
    g.do("views", {}, a=O(3))


def c02_big(g):
    r = g.r
    x = g.do1("new", {}, c=g.side(), i=[0, 1], ts=[])
    ts = [g.triple(0.05) for _ in range(r.randint(20, 50))]
    g.do("layer", {"route": r.choice(["vector", "frame"])}, a=O(x), ts=ts)
    g.do("layer", {"route": "scalar"}, a=O(x), ts=[g.triple() for _ in range(3)])
    g.do("views", {}, a=O(x))


# --------------------------------------------------------------------------- C03
def c03(g):
    r = g.r
    for _ in range(2):
        x = g.fn()
        if r.random() < 0.3:
            x = binop(g, ["add", "mul", "sub", "lt", "and"], x, x) or x
        for _ in range(r.randint(1, 3)):
            w = r.choice(["limit", "limit", "sample", "sample", "views", "layer"])
            if w == "limit":
                g.do("limit", {}, a=O(x), xs=pts(g), side=r.choice(["left", "right"]))
            elif w == "sample":
                g.do("sample", {}, a=O(x), xs=pts(g))
            elif w == "layer":
                layer_call(g, x, 1)
                g.do("views", {}, a=O(x))
            else:
                g.do("views", {}, a=O(x))
        g.do("views", {}, a=O(x))


def c03_big(g):
    r = g.r
    x = g.fn()
    xs = list(g.ticks)
    r.shuffle(xs)
    g.do("limit", {}, a=O(x), xs=xs, side="left")
    g.do("limit", {}, a=O(x), xs=xs, side="right")
    g.do("sample", {}, a=O(x), xs=xs)
    g.do("views", {}, a=O(x))


# ---------------------------------------------------------------------- C04 / C05
def pair_ops(g, ops, unary=()):
    r = g.r
    for _ in range(2):
        g.fn()
    if r.random() < 0.15:
        g.realise((r.choice([[0, 1], [1, 1], NAN, [2, 1]]), [], []))
    n = len(g.S.heap)
    for _ in range(r.randint(4, 8)):
        x, y = r.randint(1, n), r.randint(1, n)
        if unary and r.random() < 0.25:
            z = g.do1("un", {}, f=r.choice(unary), a=O(x))
        else:
            z = binop(g, ops, x, y)
        if z and r.random() < 0.35:  # usable in any further operation
            w = r.choice(["layer", "add", "ident", "views", "op", "stat", "touch"])
            if w == "layer":
                layer_call(g, z)
            elif w == "add":
                if g.poolname not in TINY and g.exact(z) and g.exact(x):
                    g.do1("bin", g.opform(), f="add", a=O(z), b=r.choice([O(x), ["s", [5, 1]]]))
            elif w == "ident":
                g.do("ident", {}, a=O(z), b=O(r.randint(1, len(g.S.heap))))
            elif w == "views":
                g.do("views", {}, a=O(z))
            elif w == "touch":
                g.maybe_touch(z, 1.0)
            elif w == "op":
                g.do1("un", {}, f=r.choice(UNARY), a=O(z))
            else:
                g.do("stat", {}, a=O(z), f=r.choice(["mean", "integral", "min", "max"]))


def c04(g):
    pair_ops(g, REL)


def c05(g):
    pair_ops(g, LOGIC, ["inv", "bool"])


def c04_big(g):
    for _ in range(2):
        g.fn()
    for f in g.r.sample(REL, 3):
        g.do1("bin", g.opform(), f=f, a=O(1), b=O(2))


def c05_big(g):
    for _ in range(2):
        g.fn()
    for f in LOGIC:
        g.do1("bin", g.opform(), f=f, a=O(1), b=O(2))
    for f in ("inv", "bool"):
        g.do1("un", {}, f=f, a=O(1))


# --------------------------------------------------------------------------- C06
def restrict(g, x, y):
    r = g.r
    w = r.choice(["clip", "clip", "mask", "mask", "where", "where", "masktup", "wheretup", "isna", "notna"])
    if w in ("mask", "where"):
        return g.do1(w, {}, a=O(x), b=O(y))
    if w in ("isna", "notna"):
        return g.do1("un", {}, f=w, a=O(x))
    lo, hi = g.window()
    h = {"form": r.choice(["pos", "kw"]), "str": r.random() < 0.2, "finf": r.random() < 0.15}
    return g.do1(w, h, a=O(x), lo=lo, hi=hi)


def c06(g):
    r = g.r
    for _ in range(2):
        g.fn()
    if r.random() < 0.2:
        g.realise((r.choice([[0, 1], [1, 1], NAN, [2, 1]]), [], []))
    for _ in range(r.randint(3, 7)):
        n = len(g.S.heap)
        x = r.randint(1, n)
        z = restrict(g, x, r.randint(1, n))
        if z and r.random() < 0.2:
            g.do("limit", {"forms": 2}, a=O(z), xs=pts(g), side=r.choice(["left", "right"]))
        if r.random() < 0.2:
            g.maybe_touch(x)


def c06_laws(g):
    """where((a, b)) = clip(a, b); mask = where of the complement"""
    r = g.r
    x, y = g.fn(), g.fn()
    lo, hi = g.window()
    g.do("ident", {}, a=O(g.do1("clip", {}, a=O(x), lo=lo, hi=hi)), b=O(g.do1("wheretup", {}, a=O(x), lo=lo, hi=hi)))
    m = g.do1("mask", {}, a=O(x), b=O(y))
    w = g.do1("where", {}, a=O(x), b=O(g.do1("un", {}, f="inv", a=O(y))))
    if m and w:
        g.do("ident", {}, a=O(m), b=O(w))


# --------------------------------------------------------------------------- C07
def fill(g, x, y):
    r = g.r
    w = r.choice(["fills", "fillm", "fillm", "fillf", "fillf"])
    if w == "fills":
        return g.do1("fills", {}, a=O(x), x=g.scalar())
    if w == "fillm":
        return g.do1("fillm", {}, a=O(x), f=r.choice(["ffill", "pad", "bfill", "backfill"]))
    return g.do1("fillf", {}, a=O(x), b=O(y))


def c07(g):
    r = g.r
    g.pnan = r.choice([0.3, 0.5, 0.7])
    for _ in range(r.choice([2, 3])):
        g.fn()
    if r.random() < 0.2:
        g.realise((r.choice([[0, 1], [1, 1], NAN, [2, 1]]), [], []))
    for _ in range(r.randint(4, 7)):
        n = len(g.S.heap)
        x = r.randint(1, n)
        z = fill(g, x, r.randint(1, n))
        if r.random() < 0.2:
            g.maybe_touch(x)
        if z and r.random() < 0.1:
            g.do("views", {}, a=O(z))


# --------------------------------------------------------------------------- C08
STATS8 = ["mean", "integral", "var", "std"]


def stat8(g, x):
    r = g.r
    if g.poolname in NOBT:
        names = ["mean", "integral"]
    else:
        names = STATS8
    w = r.random()
    if w < 0.45:
        g.do("stat", {"form": r.choice(["method", "method", "agg", "aggwhere", "agglist"])}, a=O(x), f=r.choice(names))
    elif w < 0.75:
        lo, hi = g.window()
        g.do("aggstat", {"form": r.choice(["agg", "list", "clip"])}, a=O(x), f=r.choice(names), lo=lo, hi=hi, cl="")
    elif w < 0.9:
        g.do("vsums", {}, a=O(x))
    else:
        g.do("vsumsna", {}, a=O(x))


def c08(g):
    r = g.r
    for _ in range(2):
        x = g.fn(nsteps=r.choice([2, 3, 3, 4, 5, 6]))
        if r.random() < 0.3:
            lo, hi = g.window()
            x = g.do1("clip", {}, a=O(x), lo=lo, hi=hi)
        for _ in range(r.randint(3, 6)):
            stat8(g, x)
        if r.random() < 0.3:
            layer_call(g, x)
            stat8(g, x)
            stat8(g, x)


def c08_big(g):
    x = g.fn()
    for f in ("mean", "integral", "std", "var"):
        g.do("stat", {}, a=O(x), f=f)
    g.do("vsums", {}, a=O(x))


# --------------------------------------------------------------------------- C09
def shares(g, x):
    """percent values at the cumulative-share boundaries of x"""
    from fractions import Fraction as F

    f = g.f(x)
    lens = {}
    for k in range(len(f["p"]) - 1):
        v = tuple(f["v"][k])
        if v[1] > 0:
            lens[v] = lens.get(v, 0) + f["p"][k + 1] - f["p"][k]
    T = sum(lens.values())
    out, c = [], 0
    for v in sorted(lens, key=fr):
        c += lens[v]
        out.append(F(c, T))
    return out, T


def query9(g, x):
    from fractions import Fraction as F

    r = g.r
    sh, T = shares(g, x)
    if T == 0:
        return
    pw = T & (T - 1) == 0
    w = r.choice(["ecdf", "ecdf", "pct", "pct", "frac", "quant", "median", "mode", "hist", "hist", "describe"])
    if w == "ecdf":
        ys = [v for v in g.values(x) if v[1]] + [g.val(), [99, 1], [-99, 1], [1, 3]]
        r.shuffle(ys)
        g.do("ecdf", {"form": r.choice(["call", "scalar", "sample", "limit"])}, a=O(x), ys=ys[:5], side=r.choice(["left", "right"]))
    elif w in ("pct", "frac"):
        qs = [F(0), F(1), F(1, 2), F(1, 4), F(3, 4), F(1, 8), F(r.randint(0, 64), 64), F(r.randint(0, 64), 64)]
        qs += sh
        bad = set() if pw else set(sh) - {F(1)}
        qs = [q for q in qs if q not in bad]
        r.shuffle(qs)
        qs = qs[:5]
        if w == "pct":
            qs = [q * 100 for q in qs]
        g.do(w, {"form": r.choice(["call", "scalar", "sample"])}, a=O(x), qs=[enc(q) for q in qs])
    elif w == "quant":
        q = r.choice([1, 2, 3, 4, 5, 8, 10])
        if pw or not any(F(k, q) in sh for k in range(1, q)):
            g.do("quant", {}, a=O(x), q=q)
    elif w == "median":
        if pw or F(1, 2) not in sh:
            g.do("stat", {"form": r.choice(["method", "agg", "median50"])}, a=O(x), f="median")
    elif w == "mode":
        g.do("stat", {"form": r.choice(["method", "agg"])}, a=O(x), f="mode")
    elif w == "describe":
        ps = [F(25), F(50), F(75)]
        if r.random() < 0.4:
            ps = [F(r.choice([0, 5, 10, 20, 30, 50, 60, 90, 95, 100])) for _ in range(r.randint(1, 4))]
            ps = sorted(set(ps))
        if pw or not any(p / 100 in sh for p in ps if p < 100):
            g.do("describe", {}, a=O(x), lo=[], hi=[], qs=[enc(p) for p in ps])
    else:
        hist9(g, x)


def edges(g, x):
    r = g.r
    vs = sorted({fr(v) for v in g.values(x) if v[1]})
    es = set(vs) if r.random() < 0.6 else set()
    es |= {vs[0] - 1, vs[-1] + 1}
    for _ in range(r.randint(0, 3)):
        a = r.choice(vs)
        es.add(a + r.choice([-1, 1]) * r.choice([1, 2]) / 2 if False else a + r.choice([-2, -1, 1, 2]))
    return sorted(es)


def hist9(g, x):
    r = g.r
    side = r.choice(["left", "right"])
    stat = r.choice(["sum", "frequency", "density", "probability"])
    vs = [fr(v) for v in g.values(x) if v[1]]
    unit_ok = max(vs) - min(vs) <= 40
    if r.random() < 0.3 and unit_ok:
        g.do("hist", {}, a=O(x), bins=[], side=side, stat=stat)
        return
    if g.poolname in TINY and stat in ("density", "frequency"):
        stat = "sum"
    if g.poolname == "big" and stat == "density":
        stat = "probability"
    es = edges(g, x)
    if g.poolname in TINY:
        es = [e for e in es if e.denominator == 1] or es
        if len(es) < 2:
            es = [-1, 2]
    bins = [[enc(a), enc(b)] for a, b in zip(es, es[1:])]
    form = r.choice(["seq", "ii"])
    if form == "ii" and len(bins) > 2 and stat in ("sum", "frequency") and r.random() < 0.4:
        del bins[r.randrange(1, len(bins) - 1)]
    if stat in ("sum", "frequency") and len(bins) > 1 and r.random() < 0.2:
        bins = bins[1:]
    g.do("hist", {"form": form, "intbins": r.random() < 0.5}, a=O(x), bins=bins, side=side, stat=stat)


def c09(g):
    r = g.r
    x = g.fn(nsteps=r.choice([2, 3, 3, 4, 5, 6]))
    for _ in range(r.randint(4, 8)):
        query9(g, x)
    if r.random() < 0.35:
        lo, hi = g.window()
        qs = [[25, 1], [50, 1], [75, 1]]
        y = g.do1("clip", {}, a=O(x), lo=lo, hi=hi)
        sh, T = shares(g, y)
        from fractions import Fraction as F

        if T and (T & (T - 1) == 0 or not any(F(q[0], 100) in sh for q in qs)):
            g.do("describe", {}, a=O(x), lo=lo, hi=hi, qs=qs)


def c09_pow2(g):
    """total length a power of two: every share boundary is exactly representable"""
    r = g.r
    T = r.choice([4, 8, 8, 16])
    n = r.randint(1, min(5, T - 1))
    cuts = sorted(r.sample(range(1, T), n))
    p = [g.ticks[0] + c for c in [0] + cuts + [T]]
    vs = [g.val() for _ in p]
    v = []
    prev = [0, 1]
    for k in range(len(p)):
        c = [w for w in g.pool if w != prev]
        prev = r.choice(c)
        v.append(prev)
    g.hot = p
    x = g.realise(([0, 1] if v[0] != [0, 1] else [7, 1], p, v))
    for _ in range(6):
        query9(g, x)


# --------------------------------------------------------------------------- C10
def c10(g):
    r = g.r
    for _ in range(2):
        x = g.fn()
        for _ in range(r.randint(4, 7)):
            lo, hi = g.window()
            if r.random() < 0.2 and lo and g.dom:
                cl = "both"
            cl = r.choice(CL4 + [""])
            w = r.random()
            if w < 0.5:
                g.do("vir", {}, a=O(x), lo=lo, hi=hi, cl=cl)
            elif w < 0.9:
                g.do("aggstat", {"form": r.choice(["agg", "list"])}, a=O(x), f=r.choice(["min", "max"]), lo=lo, hi=hi, cl=cl)
            else:
                g.do("aggstat", {"form": "direct"}, a=O(x), f=r.choice(["min", "max"]), lo=[], hi=[], cl="")
        if r.random() < 0.2:
            layer_call(g, x)


# --------------------------------------------------------------------------- C11
def intervals(g, increasing=False):
    r = g.r
    k = r.choice(["tiles", "tiles", "any", "gaps"])
    if increasing:
        k = "tiles"
    if k == "tiles":
        n = r.randint(2, min(6, len(g.ticks)))
        src = g.hot if r.random() < 0.4 and len(g.hot) >= n else g.ticks
        p = sorted(r.sample(src, min(n, len(src))))
        if r.random() < 0.2:
            p = sorted(set(p) | {g.ticks[0] - 1, g.ticks[-1] + 1})
        if r.random() < 0.2:
            a = r.choice(g.ticks)
            p = list(range(a, a + r.randint(2, 5)))
        if r.random() < 0.15:
            a, n = r.choice(g.ticks), r.randint(2, 4)
            p = list(range(a, a + n * r.randint(2, 4), n))
        return [[a, b] for a, b in zip(p, p[1:])]
    out = []
    for _ in range(r.randint(1, 5)):
        lo, hi = g.window(0)
        out.append([lo[0], hi[0]])
    if r.random() < 0.2:
        n = r.choice([1, 1, 2, 3])
        out = [[a, a + n] for a, _ in out]
    if k == "gaps":
        out.sort()
    return out


def slice_call(g, x, op=None):
    r = g.r
    ivs = intervals(g)
    cl = r.choice(CL4)
    cuts = r.choice(["ii", "breaks", "period"])
    op = op or r.choice(["slstat"] * 6 + ["slmode", "slhist", "slices"])
    if op == "slstat":
        f = r.choice(["mean", "integral", "median", "min", "max", "min", "max"])
        form = r.choice(["method", "agg", "agglist", "apply", "twice"])
        if f == "median" and not median_ok(g, x, ivs):
            f = "mean"
        g.do("slstat", {"cuts": cuts, "form": form}, a=O(x), ivs=ivs, cl=cl, f=f)
    elif op == "slmode":
        ivs = [i for i in ivs if has_defined(g, x, i)]
        if ivs:
            g.do("slmode", {"cuts": cuts}, a=O(x), ivs=ivs, cl=cl)
    elif op == "slhist":
        ivs = [i for i in ivs if has_defined(g, x, i)]
        if ivs and len(g.f(x)["p"]) > 0:
            es = edges(g, x)
            if g.poolname in TINY:
                es = [e for e in es if e.denominator == 1]
                if len(es) < 2:
                    es = [-1, 2]
            form = r.choice(["seq", "ii", "unit"])
            if form == "unit" and g.poolname not in TINY:
                vs = [fr(v) for i in ivs for _, v in restricted(g, x, i) if v[1]]
                if max(vs) - min(vs) < 12:
                    es = list(range(math.floor(min(vs)) - 1, math.ceil(max(vs)) + 2))
                else:
                    form = "ii"
            bins = [[enc(a), enc(b)] for a, b in zip(es, es[1:])]
            g.do("slhist", {"cuts": cuts, "form": form}, a=O(x), ivs=ivs, cl=cl, bins=bins,
                 side=r.choice(["left", "right"]), stat=r.choice(["sum", "probability", "frequency", "density"] if form == "unit" else ["sum", "probability", "frequency"]))
    else:
        return g.do("slices", {"cuts": cuts}, a=O(x), ivs=ivs, cl=cl)


def restricted(g, x, iv):
    """pieces of x inside iv as (length, value)"""
    f = g.f(x)
    ps = sorted({iv[0], iv[1]} | {t for t in f["p"] if iv[0] < t < iv[1]})
    out = []
    for a, b in zip(ps, ps[1:]):
        k = sum(1 for t in f["p"] if t <= a)
        out.append((b - a, f["i"] if k == 0 else f["v"][k - 1]))
    return out


def has_defined(g, x, iv):
    return any(v[1] for _, v in restricted(g, x, iv))


def median_ok(g, x, ivs):
    """no slice with an inexact half-share boundary"""
    for iv in ivs:
        ps = [(n, fr(v)) for n, v in restricted(g, x, iv) if v[1]]
        if not ps:
            return False
        T = sum(n for n, _ in ps)
        if T & (T - 1) == 0:
            continue
        for y in {v for _, v in ps}:
            if 2 * sum(n for n, v in ps if v <= y) == T:
                return False
    return True


def resample_call(g, x, op="resample"):
    r = g.r
    ivs = intervals(g, True)
    ivs = [i for i in ivs]
    if not all(has_defined(g, x, i) for i in ivs):
        return None
    f = r.choice(["mean", "mean", "median", "min", "max", "mode"])
    if g.dom.name in ("int", "floatu") and r.random() < 0.15:
        f = "integral"
    if f == "median" and not median_ok(g, x, ivs):
        f = "mean"
    b = [i[0] for i in ivs] + [ivs[-1][1]]
    if len(b) < 2:
        return None
    cl = r.choice(["left", "right", "neither"])  # touching intervals closed on both sides overlap: they do not tile
    return g.do1("resample", {"cuts": r.choice(["ii", "breaks", "period"])}, a=O(x), b=b, f=f, cl=cl)


def c11(g):
    r = g.r
    for _ in range(r.choice([1, 2])):
        x = g.fn()
        for _ in range(r.randint(2, 5)):
            slice_call(g, x)
        if r.random() < 0.5:
            resample_call(g, x)


# --------------------------------------------------------------------------- C12
def anyop(g, exact=True):
    """any function-valued call on random objects keeping values exactly representable; returns new ids"""
    r = g.r
    n = len(g.S.heap)
    ids = [k for k in range(1, n + 1) if g.exact(k)]
    if not ids:
        return []
    x, y = r.choice(ids), r.choice(ids)
    w = r.choices(["arith", "rel", "logic", "un", "restrict", "fill", "shift", "agg", "copy", "slices", "arr", "diff", "resample"],
                  [6, 2, 2, 4, 4, 3, 2, 2, 1, 1, 1, 1, 1])[0]
    if w == "arith":
        f = r.choice(ARITH)
        a, b = O(x), O(y)
        k = r.random()
        if k < 0.15:
            a = ["s", g.scalar()]
        elif k < 0.3:
            b = ["s", g.scalar()]
        if f == "div":
            ok = (b[0] == "s" and (b[1][1] == 0 or b[1][0] == 0 or abs(b[1][0]) in (1, 2))) or (b[0] == "o" and g.divsafe(b[1]))
            if not ok or not all(o[0] == "s" or g.small(o[1], 256) for o in (a, b)):
                f = "sub"
        if f == "mul" and not all(o[0] == "s" or g.small(o[1], 64) for o in (a, b)):
            f = "add"
        if g.poolname in TINY and f in ("mul", "div"):
            f = "sub"
        return g.do("bin", g.opform(), f=f, a=a, b=b)
    if w in ("rel", "logic"):
        a, b = O(x), O(y)
        k = r.random()
        if k < 0.15:
            a = ["s", g.scalar()]
        elif k < 0.3:
            b = ["s", g.scalar()]
        return g.do("bin", g.opform(), f=r.choice(REL if w == "rel" else LOGIC), a=a, b=b)
    if w == "un":
        return g.do("un", {}, f=r.choice(UNARY), a=O(x))
    if w == "restrict":
        z = restrict(g, x, y)
        return [z] if z else []
    if w == "fill":
        z = fill(g, x, y)
        return [z] if z else []
    if w == "shift":
        return g.do("shift", {}, a=O(x), d=r.randint(-3, 3))
    if w == "diff":
        return g.do("diff", {}, a=O(x), d=r.randint(-3, 3))
    if w == "agg":
        m = [r.choice(ids) for _ in range(r.choice([1, 2, 2, 4]))]
        return g.do("agg", {"cont": r.choice(CONT), "form": r.choice(["top", "array"])}, f=r.choice(AGGS), ids=m)
    if w == "copy":
        return g.do("copy", {}, a=O(x))
    if w == "slices":
        return slice_call(g, x, "slices") or []
    if w == "resample":
        if g.poolname in TINY:
            return []
        z = resample_call(g, x)
        return [z] if z else []
    m = [r.choice(ids) for _ in range(2)]
    if r.random() < 0.3:
        return g.do("arrneg", {"cont": "list"}, ids=m)
    return g.do("arrbin", {"form": r.choice(["op", "method"])}, f=r.choice(["add", "sub", "lt", "ge"]), ids=m, b=O(y), rev=False)


def c12(g):
    r = g.r
    for _ in range(2):
        g.fn()
    for _ in range(r.randint(4, 9)):
        new = anyop(g)
        n = len(g.S.heap)
        if new and r.random() < 0.4:
            g.do("ident", {}, a=O(new[-1]), b=r.choice([O(r.randint(1, n)), O(new[-1]), ["s", g.scalar(0.2)]]))
        if new and r.random() < 0.15:
            g.do("truth", {}, a=O(new[-1]))
        if new and r.random() < 0.2:
            g.maybe_touch(new[-1])


def c12_near(g):
    """functions one edit away from one another, built independently"""
    r = g.r
    x = g.fn()
    for _ in range(r.randint(3, 6)):
        f = g.f(x)
        i, p, v = f["i"], list(f["p"]), [list(y) for y in f["v"]]
        n = len(p)
        w = r.choice(["move", "move", "value", "init", "drop", "none", "none", "shift"])
        k = r.randrange(n) if n else 0
        if w == "move" and n:
            free = [t for t in range(p[k] - 2, p[k] + 3) if t not in p and (k == 0 or t > p[k - 1]) and (k == n - 1 or t < p[k + 1])]
            if free:
                p[k] = r.choice(free)
        elif w == "value" and n:
            v[k] = g.val()
        elif w == "init":
            i = g.val()
        elif w == "drop" and n:
            del p[k], v[k]
        elif w == "shift":
            p = [t + 1 for t in p]
        q, u, prev = [], [], i
        for t, y in zip(p, v):
            if y != prev:
                q.append(t)
                u.append(y)
            prev = y
        y = g.realise((i, q, u), f["c"] if r.random() < 0.8 else None)
        if r.random() < 0.3:
            g.maybe_touch(r.choice([x, y]))
        g.do("ident", {}, a=O(x), b=O(y))
        g.do("ident", {}, a=O(y), b=O(x))
        if r.random() < 0.3:
            x = y


def c12_laws(g):
    r = g.r
    if g.poolname in NOBT:
        law_set = ["comm", "selfsub", "notnot", "dual", "clipwhere", "twice"]
    else:
        law_set = ["comm", "assoc", "dist", "demorgan", "selfsub", "notnot", "dual", "clipwhere", "twice", "rel", "truth", "xor", "shiftdist"]
    x, y, z = g.fn(), g.fn(), g.fn()
    B = lambda f, a, b: g.do1("bin", g.opform(), f=f, a=a if isinstance(a, list) else O(a), b=b if isinstance(b, list) else O(b))
    U = lambda f, a: g.do1("un", {}, f=f, a=O(a))

    def same(a, b):
        if a and b:
            g.do("ident", {}, a=O(a), b=O(b))

    for law in r.sample(law_set, min(len(law_set), 4)):
        if law == "comm":
            f = r.choice(["add", "mul", "and", "or", "xor", "eq", "ne"])
            if g.poolname in NOBT and f == "mul":
                f = "add"
            s = r.choice([y, y, ["s", g.scalar()]])
            same(B(f, x, s), B(f, s, x))
        elif law == "assoc":
            f = r.choice(["add", "mul", "and", "or", "xor"])
            same(B(f, B(f, x, y), z), B(f, x, B(f, y, z)))
        elif law == "dist":
            if r.random() < 0.5:
                same(B("mul", x, B("add", y, z)), B("add", B("mul", x, y), B("mul", x, z)))
            else:
                same(B("and", x, B("or", y, z)), B("or", B("and", x, y), B("and", x, z)))
        elif law == "demorgan":
            same(U("inv", B("and", x, y)), B("or", U("inv", x), U("inv", y)))
        elif law == "selfsub":
            d = B("sub", x, x)
            zero = g.do1("new", {}, c=g.closed, i=[0, 1], ts=[])
            na = U("isna", x)
            same(d, g.do1("mask", {}, a=O(zero), b=O(na)))
            q = B("mul", x, ["s", [0, 1]])
            same(d, q)
        elif law == "notnot":
            same(U("inv", U("inv", x)), U("bool", x))
        elif law == "dual":
            same(g.do1("mask", {}, a=O(x), b=O(y)), g.do1("where", {}, a=O(x), b=O(U("inv", y))))
        elif law == "clipwhere":
            lo, hi = g.window()
            same(g.do1("clip", {}, a=O(x), lo=lo, hi=hi), g.do1("wheretup", {}, a=O(x), lo=lo, hi=hi))
        elif law == "twice":
            same(B("add", x, x), B("mul", x, ["s", [2, 1]]))
        elif law == "rel":
            same(B("lt", x, y), B("gt", y, x))
            same(U("inv", B("le", x, y)), B("gt", x, y))
        elif law == "truth":
            t = B("eq", x, x)
            g.do("truth", {}, a=O(t))
            t = B("or", U("isna", x), U("notna", x))
            g.do("truth", {}, a=O(t))
        elif law == "xor":
            same(B("xor", x, y), B("ne", U("bool", x), U("bool", y)))
        elif law == "shiftdist":
            d = r.randint(-3, 3)
            same(g.do1("shift", {}, a=O(B("add", x, y)), d=d),
                 B("add", g.do1("shift", {}, a=O(x), d=d), g.do1("shift", {}, a=O(y), d=d)))


def law_call(g, names=None, ids=None):
    r = g.r
    pool = [k for k in range(1, len(g.S.heap) + 1) if g.exact(k) and (g.poolname in NOBT or g.small(k, 64))]
    ids = ids or [r.choice(pool) for _ in range(3)] if pool else None
    if not ids:
        return
    names = list(names or laws.LAWS)
    if g.poolname in NOBT:
        names = [n for n in names if n in laws.NOMUL]
    if names:
        lo, hi = g.window()
        g.do("law", {}, f=r.choice(names), ids=ids, x=g.scalar(), d=r.randint(-3, 3), lo=lo, hi=hi)


def c12_law(g):
    """the library computes both sides of an identity and has to find them identical"""
    r = g.r
    for _ in range(3):
        g.fn()
    if r.random() < 0.25:
        g.realise((r.choice([[0, 1], [1, 1], NAN, [2, 1]]), [], []))
    for _ in range(r.randint(4, 8)):
        if r.random() < 0.2:
            anyop(g)
        law_call(g)


def laws_of(*names):
    def drv(g):
        for _ in range(g.r.choice([2, 3])):
            g.fn()
        for _ in range(4):
            law_call(g, names)

    drv.__name__ = "laws_of"
    return drv


# --------------------------------------------------------------------------- C13
def anyquery(g, x):
    r = g.r
    w = r.choice(["stat8", "query9", "vir", "slice", "limit", "sample", "views", "ident", "cov", "roll", "table", "touch", "mm"])
    if g.poolname in NOBT and w in ("cov", "query9", "roll"):
        w = "vir"
    if not g.small(x, 200) and w in ("stat8", "cov", "query9", "slice", "roll"):
        w = "vir"
    if w == "stat8":
        stat8(g, x)
    elif w == "query9":
        query9(g, x)
    elif w == "vir":
        lo, hi = g.window()
        g.do("vir", {}, a=O(x), lo=lo, hi=hi, cl=r.choice(CL4))
    elif w == "slice":
        slice_call(g, x, r.choice(["slstat", "slmode", "slhist"]))
    elif w == "limit":
        g.do("limit", {"forms": 2}, a=O(x), xs=pts(g), side=r.choice(["left", "right"]))
    elif w == "sample":
        g.do("sample", {"forms": 2}, a=O(x), xs=pts(g))
    elif w == "views":
        g.do("views", {}, a=O(x))
    elif w == "touch":
        g.maybe_touch(x, 1.0)
    elif w == "mm":
        g.do("stat", {}, a=O(x), f=r.choice(["min", "max"]))
    elif w == "ident":
        g.do("ident", {}, a=O(x), b=O(r.randint(1, len(g.S.heap))))
    elif w == "roll":
        roll_call(g, x)
    elif w == "table":
        ids = [r.randint(1, len(g.S.heap)) for _ in range(2)]
        g.do("table", {"form": r.choice(["top", "array", "acc"])}, ids=ids, xs=uniq(pts(g)), side=r.choice(["", "left", "right"]))
    else:
        y = r.randint(1, len(g.S.heap))
        if g.small(y, 64) and g.small(x, 64):
            cov_call(g, x, y)


def c13(g):
    r = g.r
    g.S.snap_all = True
    for _ in range(r.choice([1, 2, 2])):
        g.fn()
    if r.random() < 0.2:
        g.realise((r.choice([[0, 1], [1, 1], NAN]), [], []))
    for _ in range(r.randint(2, 4)):
        new = anyop(g) if r.random() < 0.75 else []
        if not new:
            ids = [k for k in range(1, len(g.S.heap) + 1) if g.exact(k)]
            if ids:
                anyquery(g, r.choice(ids))
        # mutate a result or an operand, everything is observed after each step
        for _ in range(r.randint(1, 2)):
            t = r.choice(new) if new and r.random() < 0.55 else r.randint(1, len(g.S.heap))
            if g.exact(t):
                layer_call(g, t, r.choice([1, 1, 2]))
        if len(g.S.heap) > 12:
            break


def c13_cached(g):
    """layering onto distribution objects and onto slices must not reach the receiver"""
    r = g.r
    g.S.snap_all = True
    x = g.fn(nsteps=r.choice([2, 3, 4]))
    query9(g, x)
    w = r.choice(["ecdf", "percentile", "fractile", "step_values", "step_changes", "to_frame", "value_sums", "sample"])
    if r.random() < 0.5:
        g.maybe_touch(x, 1.0)
    g.do("poke", {}, a=O(x), f=w)
    for _ in range(3):
        query9(g, x)


# --------------------------------------------------------------------------- C14
def query14(g, x):
    r = g.r
    if not g.small(x, 60):
        return
    w = r.choice(["stat", "stat", "stat", "agg", "vsums", "q9", "q9", "q9", "vir", "mm"])
    if w == "stat":
        names = ["mean", "integral", "median", "mode"] + ([] if g.poolname in NOBT else ["var", "std"])
        f = r.choice(names)
        if f == "median":
            from fractions import Fraction as F

            sh, T = shares(g, x)
            if T & (T - 1) and F(1, 2) in sh:
                f = "mean"
        g.do("stat", {"form": r.choice(["method", "agg"])}, a=O(x), f=f)
    elif w == "agg":
        lo, hi = g.window()
        g.do("aggstat", {}, a=O(x), f=r.choice(["mean", "integral", "min", "max"]), lo=lo, hi=hi, cl="")
    elif w == "vsums":
        g.do(r.choice(["vsums", "vsumsna"]), {}, a=O(x))
    elif w == "q9":
        query9(g, x)
    elif w == "mm":
        g.do("stat", {}, a=O(x), f=r.choice(["min", "max"]))
    else:
        lo, hi = g.window()
        g.do("vir", {}, a=O(x), lo=lo, hi=hi, cl=r.choice(CL4))


def c14(g):
    r = g.r
    g.S.fresh = True
    x = g.fn() if r.random() < 0.8 else rec_fn(g)
    last = None
    for _ in range(r.randint(5, 10)):
        if r.random() < 0.4:
            if last and r.random() < 0.35:  # return to an earlier state
                g.do("layer", {"route": r.choice(["scalar", "vector"])}, a=O(x), ts=[{**t, "v": enc(-fr(t["v"]))} for t in last])
                last = None
            else:
                last = layer_call(g, x, r.choice([1, 1, 2]))
        else:
            query14(g, x)
            if r.random() < 0.3:
                query14(g, x)
    query14(g, x)


def c14_keep(g):
    """queries around a layering which changes the values and not the step points"""
    r = g.r
    g.S.fresh = True
    x = g.fn(nsteps=r.choice([1, 2, 3, 3, 4, 5]))
    for _ in range(r.randint(2, 3)):
        again(g, query14, x, keep_layer)


# --------------------------------------------------------------------------- C15
def c15(g):
    r = g.r
    g.mixed = r.choice([0.0, 0.0, 0.5])
    for _ in range(2):
        g.fn()
    if r.random() < 0.6:
        g.realise((r.choice([[0, 1], [1, 1], NAN, [2, 1]]), [], []))
    n0 = len(g.S.heap)
    for _ in range(r.randint(4, 8)):
        w = r.random()
        n = len(g.S.heap)
        if w < 0.75:
            new = anyop(g)
        elif w < 0.85:
            x, y = r.randint(1, n), r.randint(1, n)
            if g.small(x, 16) and g.small(y, 16) and g.poolname not in NOBT:
                cov_call(g, x, y)
            new = []
        else:
            ids = [k for k in range(1, n + 1) if g.exact(k)]
            new = []
            if ids and g.poolname not in NOBT:
                z = resample_call(g, r.choice(ids))
                new = [z] if z else []
        for z in new[:1]:
            if r.random() < 0.4 and g.f(z)["p"]:
                g.do("sample", {"forms": 2}, a=O(z), xs=[r.choice(g.f(z)["p"]), g.tick()])


def c15_few(g):
    """collections whose members have few steps or none and whose sides differ"""
    r = g.r
    g.mixed = r.choice([0.4, 0.7])
    for _ in range(r.choice([2, 3, 4])):
        g.fn(nsteps=r.choice([0, 0, 1, 1, 1, 2, 3]))
    N = len(g.S.heap)
    for _ in range(r.randint(3, 6)):
        ids = [r.randint(1, N) for _ in range(r.choice([2, 2, 3, 4]))]
        w = r.choice(["agg", "agg", "arrbin", "arrobj", "where", "mask", "fillf", "any"])
        if w == "agg":
            g.do("agg", {"cont": r.choice(CONT), "form": r.choice(["top", "top", "array", "acc"])}, f=r.choice(AGGS), ids=ids)
        elif w in ("arrbin", "arrobj"):
            b = ["l", [r.randint(1, N) for _ in ids]] if w == "arrbin" else O(r.randint(1, N))
            g.do("arrbin", {"form": "op"}, f=r.choice(["add", "sub", "lt", "ge", "eq"]), ids=ids, b=b, rev=False)
        elif w == "any":
            anyop(g)
        else:
            g.do1(w, {}, a=O(ids[0]), b=O(ids[1]))


# --------------------------------------------------------------------------- C16
def c16_keep(g):
    """a function which is read, layered between its own step points and used as an operand"""
    r = g.r
    x = g.fn(nsteps=r.choice([2, 3, 4]))
    g.fn()
    for _ in range(r.randint(3, 5)):
        ids = [j for j in range(1, len(g.S.heap) + 1) if g.exact(j) and g.f(j)["p"]]
        if not ids:
            return
        x = r.choice(ids)
        g.maybe_touch(x, 1.0)
        keep_layer(g, x)
        if not (g.exact(x) and g.small(x)):
            return
        w = r.choice(["un", "shift", "bin", "binr", "restrict", "fill", "agg"])
        y = r.choice([x, r.choice(ids)])
        if not g.exact(y):
            y = x
        if w == "un":
            g.do1("un", {}, f=r.choice(["neg", "inv", "bool", "isna", "notna"]), a=O(x))
        elif w == "shift":
            g.do1("shift", {}, a=O(x), d=r.randint(-3, 3))
        elif w == "bin":
            g.do1("bin", g.opform(), f=r.choice(["add", "sub", "lt", "eq", "and"]), a=O(x), b=O(y))
        elif w == "binr":
            g.do1("bin", g.opform(), f=r.choice(["add", "sub", "ge", "ne", "or"]), a=O(y), b=["s", g.scalar()])
        elif w == "restrict":
            restrict(g, x, y)
        elif w == "fill":
            fill(g, x, y)
        else:
            g.do("agg", {"cont": r.choice(CONT), "form": r.choice(["top", "array"])}, f=r.choice(["sum", "max", "min"]), ids=[x, y])


def c16(g):
    r = g.r
    for _ in range(r.choice([2, 3])):
        g.fn()
    for _ in range(r.randint(6, 14)):
        k = r.random()
        if k < 0.15:
            g.maybe_touch(r.randint(1, len(g.S.heap)), 1.0)
        elif k < 0.25:
            ids = [j for j in range(1, len(g.S.heap) + 1) if g.exact(j)]
            if ids:
                anyquery(g, r.choice(ids))
        elif k < 0.35:
            ids = [j for j in range(1, len(g.S.heap) + 1) if g.exact(j)]
            if ids:
                (layer_call if r.random() < 0.6 else keep_layer)(g, r.choice(ids))
        else:
            anyop(g)


def c16_alt(g):
    """queries about functions with all kinds of histories: the answers have to be those of equal functions built otherwise"""
    r = g.r
    g.S.alt = True
    r.choice([c03, c08, c09, c10, c11, c11, c14, c16, c18, c19, c20, c12_law])(g)
    g.S.fresh = False


# --------------------------------------------------------------------------- C18
def uniq(xs):
    out = []
    for x in xs:
        if x not in out:
            out.append(x)
    return out


def c18(g):
    r = g.r
    n = r.choice([1, 2, 3, 3, 4, 5, 6])
    for _ in range(n):
        g.fn(nsteps=r.choice([None, None, 0]))
    N = len(g.S.heap)
    for _ in range(r.randint(3, 6)):
        k = r.choice([1, 2, 2, 3, 4, 5, 6, 7, 8])
        ids = [r.randint(1, N) for _ in range(k)] if r.random() < 0.5 else r.sample(range(1, N + 1), min(k, N))
        w = r.choice(["agg"] * 5 + ["arrbin"] * 3 + ["arrneg", "table", "table", "cov", "fold"])
        if w == "agg":
            g.do("agg", {"cont": r.choice(CONT), "form": r.choice(["top", "top", "array", "acc", "reduce", "func"])},
                 f=r.choice(AGGS), ids=ids)
        elif w == "fold":
            s = g.do1("agg", {"cont": r.choice(CONT)}, f="sum", ids=ids)
            acc = ids[0]
            for j in ids[1:]:
                acc = g.do1("bin", {}, f="add", a=O(acc), b=O(j))
                if not acc:
                    break
            if s and acc:
                g.do("ident", {}, a=O(s), b=O(acc))
        elif w == "arrbin":
            f = r.choice(["add", "sub", "mul", "div", "lt", "le", "gt", "ge", "eq", "ne"])
            big = g.poolname in NOBT
            if big and f in ("mul", "div"):
                f = "sub"
            b = r.choice([["l", [r.randint(1, N) for _ in ids]], O(r.randint(1, N)), ["s", g.scalar(0.05)], ["s", g.scalar(0.05)]])
            rev = b[0] == "s" and f in ARITH and r.random() < 0.5
            form = "op" if b[0] == "l" else r.choice(["op", "op", "method"])
            if b[0] == "l" and r.random() < 0.3:
                form = "method"
            if r.random() < 0.15 and not rev and f in ARITH:
                form = "series"
            if f in ("mul", "div") and not all(g.small(j, 64) for j in ids + (b[1] if b[0] == "l" else [b[1]] if b[0] == "o" else [])):
                f = "add"
            g.do("arrbin", {"cont": r.choice(["list", "array", "series", "pandas", "arrops"]), "cont2": r.choice(["stairsarray", "list", "array", "series", "arrops"])
                            if form != "series" else "stairsarray", "form": form}, f=f, ids=ids, b=b, rev=rev)
        elif w == "arrneg":
            g.do("arrneg", {"cont": r.choice(["list", "array", "pandas", "arrops"])}, ids=ids)
        elif w == "table":
            g.do("table", {"form": r.choice(["top", "array", "acc"]), "cont": r.choice(["list", "tuple", "dict", "series", "array", "pandas", "arrops"])},
                 ids=ids, xs=uniq(pts(g)), side=r.choice(["", "left", "right"]))
        else:
            if g.poolname in NOBT or not all(g.small(j, 16) for j in ids):
                continue
            covm_call(g, ids[:5])


# --------------------------------------------------------------------------- C19
def has_common(g, x, y, a, b, lag=0):
    ps = sorted({a, b} | {t for t in g.f(x)["p"] if a < t < b} | {t - lag for t in g.f(y)["p"] if a < t - lag < b})

    def at(f, t):
        k = sum(1 for u in f["p"] if u <= t)
        return f["i"] if k == 0 else f["v"][k - 1]

    return any(at(g.f(x), u)[1] and at(g.f(y), u + lag)[1] for u in ps[:-1])


def cov_call(g, x, y):
    r = g.r
    lag = r.choice([0, 0, 0, 1, -1, 2, -2, 3])
    clip = r.choice(["pre", "post"]) if lag else "pre"
    if r.random() < 0.2 and all(k <= 40 for f in (x, y) for k in [max(g.f(f)["p"] or [0]) - min(g.f(f)["p"] or [0])]):
        # bounds left open: bounded by the domains
        lo, hi = g.window(1)
        if r.random() < 0.7:
            x, y = (g.do1("clip", {}, a=O(z), lo=a, hi=b) for z, (a, b) in ((x, g.window(0)), (y, g.window(0.6))))
        if x and y and g.small(x, 4) and g.small(y, 4):
            g.do(r.choice(["cov", "cov", "corr"]), {}, a=O(x), b=O(y), lo=lo, hi=hi, d=lag, clip=clip)
        return
    lo, hi = g.window(0)
    a, b = lo[0], hi[0]
    b2 = b - lag if clip == "pre" else b
    if b2 <= a or b - a > 14:
        lag, clip = 0, "pre"
        if b - a > 14:
            return
    op = r.choice(["cov", "cov", "corr"])
    if op == "corr" and not (g.small(x, 4) and g.small(y, 4)):
        op = "cov"
    g.do(op, {}, a=O(x), b=O(y), lo=[a], hi=[b], d=lag, clip=clip)


def covm_call(g, ids):
    """a matrix; members may be repeated next to one another, bounds may be left open"""
    r = g.r
    lo, hi = g.window(0)
    rep = 0.35
    if r.random() < 0.45 and hi[0] - lo[0] <= 20:
        cl, w0, rep = {}, (lo[0], hi[0]), 0.6
        for j in sorted(set(ids)):
            w = [w0[0] - r.choice([0, 0, 1, 2])], [w0[1] + r.choice([0, 0, 1, 2])]
            cl[j] = (g.do1("clip", {}, a=O(j), lo=w[0], hi=w[1]), w)
            if not cl[j][0]:
                return
        a, b = max(w[0][0] for _, w in cl.values()), min(w[1][0] for _, w in cl.values())
        lo, hi = g.window(0.8)
        a, b = max([a] + lo), min([b] + hi)
        ids = [cl[j][0] for j in ids]
    else:
        a, b = lo[0], hi[0]
    if r.random() < rep:
        k = r.randrange(len(ids))
        ids = ids[: k + 1] + ids[k:]
    op = "corrm" if r.random() < 0.5 and len(ids) <= 4 and all(g.small(j, 4) for j in ids) else "covm"
    if a < b and b - a <= 30 and all(g.small(j, 16) for j in ids) and all(has_common(g, x, y, a, b) for x in ids for y in ids):
        g.do(op, {"form": r.choice(["top", "array", "acc"]), "cont": r.choice(["list", "tuple", "dict", "array", "pandas", "arrops"])}, ids=ids, lo=lo, hi=hi)


def c19(g):
    r = g.r
    for _ in range(2):
        g.fn()
    if r.random() < 0.2:
        g.realise((r.choice([[0, 1], [1, 1]]), [], []))
    n = len(g.S.heap)
    for _ in range(r.randint(4, 8)):
        x, y = r.randint(1, n), r.randint(1, n)
        if r.random() < 0.15:
            covm_call(g, [r.randint(1, n) for _ in range(r.randint(1, 4))])
        elif g.small(x, 16) and g.small(y, 16):
            cov_call(g, x, y)
        if r.random() < 0.1:
            g.maybe_touch(x)


# --------------------------------------------------------------------------- C20
def roll_call(g, x):
    r = g.r
    l, rr = r.choice([(-1, 1), (-2, 0), (0, 2), (-1, 2), (-3, -1), (1, 3), (-4, 4), (0, 1), (-1, 0)])
    lo, hi = g.window(0.5)
    g.do("roll", {}, a=O(x), l=l, r=rr, lo=lo, hi=hi)


def c20(g):
    r = g.r
    x = g.fn()
    for _ in range(r.randint(3, 6)):
        w = r.choice(["shift", "diff", "roll", "roll", "eq"])
        if w == "shift":
            z = g.do1("shift", {}, a=O(x), d=r.randint(-5, 5))
            if r.random() < 0.3:
                g.do("sample", {"forms": 2}, a=O(z), xs=pts(g))
        elif w == "diff":
            g.do1("diff", {}, a=O(x), d=r.randint(-5, 5))
        elif w == "eq":
            d = r.randint(-5, 5)
            z = g.do1("diff", {}, a=O(x), d=d)
            s = g.do1("bin", {}, f="sub", a=O(x), b=O(g.do1("shift", {}, a=O(x), d=d)))
            g.do("ident", {}, a=O(z), b=O(s))
        else:
            if g.poolname not in TINY:
                roll_call(g, x)
        if r.random() < 0.2:
            layer_call(g, x, 1)


#            driver, weight, G options
# --------------------------------------------------------------------------- C17
def c17_cuts(g):
    """slices, windows and rolling windows of zoned functions around the changes of the clock"""
    g.r.choice([c11, c11, c10, c20])(g)


def c17(g):
    """any program; it is run in this domain and in a reference one, and the outcomes have to be images of one another"""
    g.r.choice([c01, c02, c03, c04, c05, c06, c07, c08, c09, c10, c11, c11, c16, c16, c14, c18, c19, c20, c20, c15, c12_law])(g)


# ------------------------------------------------------------------ sizes beyond ordinary use
def many(g, n):
    """n members, most of them small, sharing points"""
    return [g.fn(nsteps=g.r.choice([0, 1, 2, 3])) for _ in range(n)]


def huge(prop):
    """hundreds of step points, triples, evaluation points, slices or members"""

    def fns(g, n=2):
        return [g.fn() for _ in range(n)]

    def drv(g):
        r = g.r
        if prop == "C01":
            x, y = fns(g)
            for f in r.sample(ARITH, 2):
                g.do1("bin", g.opform(), f=f, a=O(x), b=O(y))
            g.do1("bin", g.opform(), f=r.choice(ARITH), a=["s", g.scalar()], b=O(x))
            g.do1("un", {}, f="neg", a=O(y))
        elif prop == "C02":
            x = rec_fn(g) if r.random() < 0.5 else g.do1("new", {}, c=g.side(), i=[0, 1], ts=[])
            g.do("layer", {"route": r.choice(["vector", "frame"])}, a=O(x), ts=[g.triple(0.05) for _ in range(r.randint(257, 400) if g.giant else r.randint(60, 130))])
            for _ in range(r.randint(3, 12)):
                layer_call(g, x, 1)
            g.do("views", {}, a=O(x))
        elif prop == "C03":
            (x,) = fns(g, 1)
            xs = [r.choice(g.ticks) for _ in range(r.randint(257, 600) if g.giant else r.randint(80, 180))]
            g.do("limit", {"forms": 3}, a=O(x), xs=xs, side=r.choice(["left", "right"]))
            g.do("sample", {"forms": 3}, a=O(x), xs=sorted(xs) if r.random() < 0.5 else xs)
            g.do("views", {}, a=O(x))
        elif prop in ("C04", "C05"):
            x, y = fns(g)
            for f in r.sample(REL if prop == "C04" else LOGIC, 2):
                g.do1("bin", g.opform(), f=f, a=O(x), b=O(y))
            g.do1("bin", g.opform(), f=r.choice(REL if prop == "C04" else LOGIC), a=O(x), b=["s", g.scalar()])
            if prop == "C05":
                g.do1("un", {}, f=r.choice(["inv", "bool"]), a=O(x))
        elif prop == "C06":
            x, y = fns(g)
            for _ in range(4):
                restrict(g, x, y)
        elif prop == "C07":
            g.pnan = 0.5
            x, y = fns(g)
            for _ in range(4):
                fill(g, x, y)
        elif prop == "C08":
            (x,) = fns(g, 1)
            for f in ("mean", "integral", "var", "std"):
                g.do("stat", {}, a=O(x), f=f)
            g.do("vsums", {}, a=O(x))
            stat8(g, x)
        elif prop == "C09":
            (x,) = fns(g, 1)
            for _ in range(4):
                query9(g, x)
            g.do("hist", {"form": r.choice(["seq", "ii"]), "intbins": r.random() < 0.5}, a=O(x),
                 bins=[[[a, 1], [a + 1, 1]] for a in range(-40, 40)], side=r.choice(["left", "right"]), stat=r.choice(["sum", "probability", "frequency"]))
        elif prop == "C10":
            (x,) = fns(g, 1)
            for _ in range(5):
                lo, hi = g.window()
                cl = r.choice(CL4 + [""])
                g.do("vir", {}, a=O(x), lo=lo, hi=hi, cl=cl)
                g.do("aggstat", {"form": r.choice(["agg", "list"])}, a=O(x), f=r.choice(["min", "max"]), lo=lo, hi=hi, cl=cl)
        elif prop == "C11":
            x = g.fn(nsteps=r.choice([5, 20, 60]))
            w = r.choice([5, 10])
            a = r.choice(g.ticks[:20])
            ivs = [[a + w * k, a + w * (k + 1)] for k in range(r.randint(20, 36))]
            f = r.choice(["mean", "integral", "min", "max"])
            g.do("slstat", {"cuts": r.choice(["ii", "breaks"]), "form": r.choice(["method", "agg"])}, a=O(x), ivs=ivs, cl=r.choice(CL4), f=f)
            ivs = r.sample(ivs, len(ivs))
            g.do("slstat", {"cuts": "ii", "form": "method"}, a=O(x), ivs=ivs, cl=r.choice(CL4), f=r.choice(["min", "max"]))
        elif prop == "C12":
            x, y = fns(g)
            z = g.do1("bin", {}, f="sub", a=O(g.do1("bin", {}, f="add", a=O(x), b=O(y))), b=O(y))
            g.do("ident", {}, a=O(z), b=O(x))
            g.do1("bin", {}, f="eq", a=O(x), b=O(x))
            law_call(g, ["comm_add", "comm_mul"], [x, y, x])
        elif prop == "C14":
            g.S.fresh = True
            x = g.do1("new", {}, c=g.side(), i=[0, 1], ts=[])
            for _ in range(30):
                if r.random() < 0.5:
                    g.do("layer", {"route": "scalar"}, a=O(x), ts=[g.triple(0.05)])
                else:
                    query14(g, x)
        elif prop == "C16":
            x, y = g.fn(nsteps=40), g.fn(nsteps=40)
            for _ in range(10):
                anyop(g)
                if sum(len(i["p"]) for i in g.S.info[-3:]) > 900:
                    break
        elif prop == "C18":
            ids = many(g, r.choice([12, 17, 33, 65]))
            for f in r.sample(AGGS, 3):
                g.do("agg", {"cont": r.choice(CONT), "form": r.choice(["top", "array"])}, f=f, ids=ids)
            g.do("arrbin", {"form": r.choice(["op", "method"])}, f=r.choice(["add", "lt", "ge"]), ids=ids, b=["l", ids[::-1]], rev=False)
            g.do("table", {"form": r.choice(["top", "array", "acc"])}, ids=ids, xs=uniq(pts(g)), side=r.choice(["", "left", "right"]))
        elif prop == "C20":
            (x,) = fns(g, 1)
            g.do1("shift", {}, a=O(x), d=r.randint(-200, 200))
            g.do1("diff", {}, a=O(x), d=r.randint(-200, 200))

    drv.__name__ = "huge"
    return drv


C17_DOMAINS = ["ts", "tsd", "tsmin", "tsus", "tzsyd", "tznyc", "tzfix", "tzutc", "tzsyd", "tznyc", "tzfall", "tzfall", "tzfix", "td", "tdneg", "td", "float", "floatu", "int3", "fine", "wide", "mixed", "mixed", "halves", "halves", "tdns", "tsus", "tdns", "tsus"]

DRIVERS = {
    "C01": [(c01, 10, {}), (c01_big, 0.3, {"big": True, "pool": "ints"}), (laws_of(*laws.OF["C01"]), 1.5, {})],
    "C02": [(c02, 10, {}), (c02_keep, 3, {}), (c02_ctor, 4, {}), (c02_big, 0.3, {"big": True, "pool": "ints"})],
    "C03": [(c03, 10, {}), (c03_big, 0.4, {"big": True, "pool": "ints"})],
    "C04": [(c04, 10, {}), (c04_big, 0.3, {"big": True, "pool": "ints"}), (laws_of(*laws.OF["C04"]), 1.5, {})],
    "C05": [(c05, 10, {}), (c05_big, 0.3, {"big": True, "pool": "ints"}), (laws_of(*laws.OF["C05"]), 1.5, {})],
    "C06": [(c06, 10, {}), (c06_laws, 2, {}), (laws_of(*laws.OF["C06"]), 1.5, {})],
    "C07": [(c07, 10, {}), (laws_of(*laws.OF["C07"]), 1.5, {})],
    "C08": [(c08, 10, {"exclude_pools": TINY}), (c08_big, 0.3, {"big": True, "pool": "ints"})],
    "C09": [(c09, 8, {"exclude_pools": NOBT}), (c09_pow2, 4, {"exclude_pools": NOBT})],
    "C10": [(c10, 10, {})],
    "C11": [(c11, 10, {"exclude_pools": TINY})],
    "C12": [(c12, 8, {}), (c12_near, 2, {}), (c12_laws, 2, {}), (c12_law, 5, {})],
    "C13": [(c13, 8, {}), (c13_cached, 1, {"exclude_pools": NOBT})],
    "C14": [(c14, 10, {}), (c14_keep, 6, {})],
    "C15": [(c15, 10, {}), (c15_few, 3, {})],
    "C16": [(c16, 8, {"exclude_pools": TINY}), (c16_keep, 3, {"exclude_pools": TINY}), (c16_alt, 4, {"exclude_pools": NOBT})],
    "C17": [(c17, 10, {"exclude_pools": NOBT, "domains": C17_DOMAINS}),
            (c17_cuts, 1.5, {"exclude_pools": NOBT, "domains": ["tzfall", "tzfall", "tznyc", "tzsyd"]})],
    "C18": [(c18, 10, {}), (laws_of(*laws.OF["C18"]), 1.5, {})],
    "C19": [(c19, 10, {"exclude_pools": NOBT})],
    "C20": [(c20, 10, {}), (laws_of(*laws.OF["C20"]), 1.5, {})],
}
for _p in ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C14", "C16", "C18", "C20"):
    DRIVERS[_p].append((huge(_p), 0.04, {"pool": "ints" if _p not in ("C12", "C16") else "small", **({"huge": 2 if _p in ("C08", "C09", "C11") else 1} if _p not in ("C18", "C16", "C14") else {"big": True} if _p == "C16" else {})}))
