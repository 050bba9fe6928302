"""Executes programs against the real staircase and logs every public call with its projected outcome.

A program is a list of steps.  A step is the call as the specification sees it (op + abstract arguments) plus `h`,
hints on HOW the call is made (construction route, operator vs method form, scalar flavour, container type...), which
the specification never sees: whatever the hints, it prescribes the same outcome."""
import random
import signal
import warnings
from fractions import Fraction

import numpy as np
import pandas as pd

import staircase as sc
from domains import DOMAINS
import laws
from enc import peek, rat, ratlen, snapshot, stat, statlen

warnings.simplefilter("ignore")
np.seterr(all="ignore")

NAN = [0, 0]


QUERIES = {"limit", "sample", "views", "touch", "ident", "truth", "stat", "aggstat", "vsums", "vsumsna", "ecdf", "pct", "frac", "quant", "hist",
           "describe", "vir", "slstat", "slmode", "slhist", "cov", "corr", "covm", "corrm", "table", "roll"}


# Calls that are equivariant under a change of the units in which values are measured, x -> c x + k: the power of c in
# what they return, and (where k may be non-zero) the multiple of k.  Lengths, positions and shares do not change.
_O = ("median", "mode", "min", "max")  # order statistics
_M = ("mean", "std", "integral")


def degrees(s):
    """(power of c, multiple of k or None if only c x is meant, arithmetic on lengths involved)"""
    op, f = s["op"], s.get("f")
    if op in ("limit", "sample", "table", "vir", "pct", "frac", "quant", "slmode", "views", "fills", "fillm", "fillf", "clip",
              "mask", "where", "masktup", "wheretup", "shift", "slices"):
        return 1, 1, False
    if op in ("vsums", "vsumsna", "ecdf", "ident"):
        return 0, 0, False
    if op in ("hist", "slhist"):
        return (0, 0, s["stat"] == "frequency") if s["bins"] else None
    if op == "diff":
        return 1, 0, False
    if op in ("stat", "aggstat", "slstat", "resample"):
        return (1, 1, False) if f in _O else (1, None, True) if f in _M else (2, None, True) if f == "var" else None
    if op in ("cov", "covm"):
        return 2, None, True
    if op in ("corr", "corrm"):
        return 0, None, True
    if op in ("describe", "roll"):
        return 1, None, True
    if op in ("un", "arrneg"):
        return (1, -1, False) if f == "neg" or op == "arrneg" else (0, 0, False) if f in ("isna", "notna") else (0, None, False)
    if op in ("bin", "arrbin"):
        if f in ("add", "sub"):
            return 1, 2 if f == "add" else 0, False
        if f in ("mul", "div"):
            return 2 if f == "mul" else 0, None, False
        return 0, None if f in ("and", "or", "xor") else 0, False
    if op == "agg":
        n = len(s["ids"])
        if f == "sum":
            return 1, n, False
        if f == "mean":
            return 1, 1 if n & (n - 1) == 0 else None, False
        return (1, 1, False) if f in _O else (0, None, False)
    if op == "new":
        return 1, None, False
    return None


class Stop(Exception):
    pass


class Timeout(Exception):
    pass


class Odd(Exception):
    """the call returned something of the wrong kind"""


def q2(v):
    return None if v[1] == 0 else Fraction(v[0], v[1])


def canon_bad(bad):
    return sorted(set(bad))


def opt(dom, o, r, missing=None):
    """an optional point as a label or one of the spellings of `missing`"""
    if o:
        return dom.flavoured(o[0], r)
    return missing


def scalar(v, r, plain=False):
    if v[1] == 0:
        return r.choice([np.nan, float("nan"), np.float64("nan")])
    x = v[0] / v[1]
    if v[1] == 1:
        if plain:
            return r.choice([v[0], x])
        c = [v[0], v[0], x, np.int64(v[0]), np.float64(x)]
        if abs(v[0]) < 2**15:
            c += [np.int32(v[0]), np.float32(x), np.int16(v[0])]
        if abs(v[0]) < 2**7:
            c += [np.int8(v[0]), np.float16(x)]
        if 0 <= v[0] < 2**8:
            c += [np.uint8(v[0]), np.uint64(v[0])]
        if 0 <= v[0] <= 1:
            c.append(bool(v[0]))
        return r.choice(c)
    if plain:
        return x
    c = [x, x, np.float64(x)]
    if float(np.float32(x)) == x:
        c.append(np.float32(x))
    if float(np.float16(x)) == x:
        c.append(np.float16(x))
    return r.choice(c)


def smalldtype(vs, r):
    """a small numpy dtype holding these (defined) values exactly"""
    xs = [v[0] / v[1] for v in vs]
    c = ["float64"]
    if all(float(np.float32(x)) == x for x in xs):
        c += ["float32"]
    if all(v[1] == 1 for v in vs):
        c += ["int64"]
        if all(abs(x) < 2**31 for x in xs):
            c += ["int32"]
        if all(abs(x) < 2**7 for x in xs):
            c += ["int8", "int16"]
        if all(0 <= x < 2**8 for x in xs):
            c += ["uint8", "uint16", "uint64"]
        if all(0 <= x <= 1 for x in xs):
            c += ["bool"]
    return r.choice(c)


def operand_ids(step):
    ids = []
    for k in ("a", "b"):
        o = step.get(k)
        if isinstance(o, list) and len(o) == 2 and o[0] == "o":
            ids.append(o[1])
        if isinstance(o, list) and len(o) == 2 and o[0] == "l":
            ids += o[1]
    return ids + list(step.get("ids", []))


def contents(c):
    """what a caller's list, array, Series, frame or collection holds"""
    if isinstance(c, sc.StairsArray):
        return list(c.data)
    if isinstance(c, dict):
        return [y for x in c.items() for y in x]
    if isinstance(c, (list, tuple)):
        return list(c)
    if isinstance(c, np.ndarray):
        return list(c) if c.dtype == object else c.copy()
    if isinstance(c, pd.Series) and (c.dtype == object or c.dtype.name == "Stairs"):
        return list(c) + list(c.index)
    return c.copy() if isinstance(c, (pd.Series, pd.DataFrame, pd.Index)) else None


def same(a, b):
    if a is b:
        return True
    if isinstance(a, sc.Stairs) or isinstance(b, sc.Stairs):
        return isinstance(a, sc.Stairs) and isinstance(b, sc.Stairs) and a.closed == b.closed and bool(peek(a).identical(peek(b)))
    return type(a) is type(b) and bool(a == b)


def intact(c, before):
    now = contents(c)
    if isinstance(before, np.ndarray):
        return now.dtype == before.dtype and pd.Series(now).equals(pd.Series(before))
    if isinstance(before, (pd.Series, pd.DataFrame, pd.Index)):
        return before.equals(now) and (isinstance(before, pd.Index) or before.index.equals(now.index))
    return before is None or len(before) == len(now) and all(map(same, before, now))


def scramble(c):
    """change it in place, as its owner may"""
    try:
        if isinstance(c, list):
            c.reverse()
        elif isinstance(c, np.ndarray):
            c[:] = c[::-1].copy() if len(c) > 1 and c[0] != c[-1] else c[0] + c[0]
        elif isinstance(c, pd.Series):
            c.iloc[:] = c.iloc[::-1].values if len(c) > 1 and c.iloc[0] != c.iloc[-1] else 77
        elif isinstance(c, pd.DataFrame):
            c.iloc[:, -1] = 77.0
    except Exception:
        pass


class Session:
    def __init__(self, domain, timeout=20):
        self.dom = DOMAINS[domain]
        self.heap = []
        self.ev = []  # logged events
        self.prog = []  # the program (replayable)
        self.series = {}
        self.snap_all = False
        self.fresh = False
        self.alt = False  # queries are put a second time, to equal functions built in another way (event["ref"])
        self.unit = False  # half of the calls are made in other units of the values
        self.c, self.k, self.deg = 1, 0, (0, 0)
        self.timeout = timeout
        self.info = []  # last known snapshot per object
        self.dead = None

    # ----------------------------------------------------------------- driving
    def do(self, op, h=None, **args):
        """run one step; returns the list of new object ids"""
        step = {"op": op, **args}
        h = dict(h or {})
        if self.unit and random.Random("unit/%s" % h.get("seed", 0)).random() < 0.5 and degrees(step):
            h["u"] = 1
        self.prog.append({**step, "h": h})
        r = random.Random(h.get("seed", 0))
        self.dom.mixr.seed(h.get("seed", 0))
        n0 = len(self.heap)
        self._ids = operand_ids(step)
        self._given = []
        twin = self._twin(step, h) if self.alt and op in QUERIES and op != "touch" else None
        kept = self._units(step, h) if h.get("u") else None
        old = signal.signal(signal.SIGALRM, self._alarm)
        signal.setitimer(signal.ITIMER_REAL, self.timeout)
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                res = getattr(self, "op_" + op)(step, h, r)
        except Odd as e:
            res = {"k": "odd", "why": str(e)}
        except (KeyboardInterrupt, SystemExit):
            raise
        except BaseException as e:
            res = {"k": "err", "e": type(e).__name__, "why": str(e)[:160]}
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, old)
            if kept is not None:
                self.c, self.k, self.deg = 1, 0, (0, 0)
                self.heap[:n0] = kept
        res.setdefault("bad", [])
        if not all(intact(c, before) for c, before, _ in self._given):
            res["bad"] = canon_bad(res["bad"] + ["input"])
        own = [c for c, _, o in self._given if o]
        if own and res["k"] in ("new", "mut") and r.random() < 0.5:
            for c in own:
                scramble(c)
            try:
                res["f"] = snapshot(self.dom, self.heap[-1] if res["k"] == "new" else self.obj(step["a"]))
            except Exception:
                pass
        snap = []
        if res["k"] not in ("odd",):
            ids = self._watched(step, h, n0)
            for i in ids:
                try:
                    f = snapshot(self.dom, self.heap[i - 1])
                except Exception as e:
                    res = {"k": "err", "e": "Observe" + type(e).__name__, "why": str(e)[:160], "bad": []}
                    break
                self.info[i - 1] = f
                snap.append([i, f])
        event = {**step, "res": res, "snap": snap}
        if step["op"] in ("stat", "aggstat", "slstat"):
            # lengths beyond this many ticks are not representable as Timedeltas
            event["lim"] = int(min(2**31 - 1, (2**63 - 1) // self.dom.unit_q)) if self.dom.datelike else 2**31 - 1
        if twin:
            twin[0].do(op, twin[1], **args)
            event["ref"] = twin[0].ev[-1]
        self.ev.append(event)
        if res["k"] == "odd" or (res["k"] == "err" and res["e"] != "ClosedMismatchError"):
            self.dead = res
            # a query that raised leaves the objects as they were (the judge says whether it may raise)
            if getattr(self, "twin", False):
                return []
            if res["k"] == "odd" or res["e"] == "Timeout" or res["e"].startswith("Observe") or op not in QUERIES:
                raise Stop()
        return list(range(n0 + 1, len(self.heap) + 1))

    def _units(self, step, h):
        """the operands of this call measured in other units: x -> c x + k, without rounding"""
        d = degrees(step)
        r = random.Random("units/%s" % h.get("seed", 0))
        if not d or d[2] and self.dom.datelike:
            return None
        ids = operand_ids(step)
        vs = [v for i in ids for v in [self.info[i - 1]["i"]] + self.info[i - 1]["v"] if v[1]]
        vs += [step[k][1] for k in ("a", "b") if step.get(k) and step[k][0] == "s"] + ([step["x"]] if step["op"] == "fills" else []) + step.get("ys", [])
        if step["op"] in ("hist", "slhist"):
            vs += [x for b in step["bins"] for x in b]
        if not all(n == (n & -n) and 0 < n <= 2**30 for _, n in vs if n):
            return None
        if d[1] is not None and r.random() < 0.6 and all(n <= 16 and abs(v) < 2**10 * n for v, n in vs if n):
            self.c, self.k = r.choice([(Fraction(1), 2**40), (Fraction(1), -(2**36)), (Fraction(1, 2**40), 1), (Fraction(1, 2**32), -3), (Fraction(1, 2**24), 7)])
        else:
            self.c, self.k = r.choice([Fraction(1, 2**30), Fraction(1, 2**40), Fraction(1, 2**70), Fraction(2**40), Fraction(2**70)]), 0
        self.deg = d[:2]
        kept = list(self.heap)
        flat = [step["b"][1]] if step["op"] in ("mask", "where") else []
        for i in set(ids):
            if i not in flat:
                self.heap[i - 1] = self._affine(self.heap[i - 1], float(self.c), self.k)
        if flat and flat[0] == step["a"][1]:  # f.mask(f)
            self.c, self.k, self.heap[:] = 1, 0, kept
            return None
        return kept

    def _affine(self, f, c, k):
        o = peek(f)
        g = sc.Stairs(initial_value=o.initial_value * c + k, closed=o.closed)
        if len(o.step_values):
            g = sc.Stairs.from_values(o.initial_value * c + k, o.step_values * c + k, closed=o.closed)
        return g

    def _back(self, x):
        """a function that was returned, in the units of the specification"""
        if self.c == 1 and not self.k:
            return x
        e, m = self.deg
        o = peek(x)
        i = self.un(o.initial_value, e, m)
        if not len(o.step_values):
            return sc.Stairs(initial_value=i, closed=o.closed)
        return sc.Stairs.from_values(i, pd.Series([self.un(v, e, m) for v in o.step_values], index=o.step_values.index), closed=o.closed)

    def un(self, y, e=1, m=None):
        """a number that was returned, which is of degree `e` in the values and carries `m` times the offset"""
        if self.c == 1 and not self.k or isinstance(y, (bool, np.bool_)) or not isinstance(y, (int, float, np.number, Fraction)):
            return y
        if isinstance(y, (float, np.floating)) and not np.isfinite(y):
            return y
        q = (Fraction(y if isinstance(y, Fraction) else float(y)) - (e if m is None else m) * self.k) / self.c**e
        return float(q) if isinstance(y, (int, float, np.number)) else q

    def num(self, v, r, plain=False):
        """a value as an argument"""
        if v[1] == 0 or self.c == 1 and not self.k:
            return scalar(v, r, plain)
        return float(Fraction(v[0], v[1]) * self.c + self.k)

    def _twin(self, step, h):
        """a session whose heap holds, for the operands of this call, equal functions with another history"""
        r = random.Random("twin/%s" % h.get("seed", 0))
        t = Session(self.dom.name, self.timeout)
        t.dom = self.dom
        t.twin = True
        t.heap, t.info = list(self.heap), list(self.info)
        for i in operand_ids(step):
            t.heap[i - 1] = self._rebuilt(self.heap[i - 1], r)
        return t, ({**h, "seed": r.random()} if r.random() < 0.5 else h)

    def _rebuilt(self, f, r):
        g = self._fresh(f)
        w = r.choice(["values", "deltas", "deltas", "both"])
        if w == "deltas":
            o = peek(f)
            sv = o.step_values
            d = np.diff(np.append([o.initial_value], sv.values))
            if len(sv) and np.isfinite(d).all():
                k = sc.Stairs(initial_value=o.initial_value, closed=o.closed)
                k.layer(start=sv.index, value=d) if r.random() < 0.5 else [k.layer(start=a, value=b) for a, b in zip(sv.index, d)]
                kv = peek(k).step_values
                if len(kv) == len(sv) and (kv.values == sv.values).all() and (kv.index == sv.index).all():
                    return k
        elif w == "both":
            g.step_changes
        return g

    def _alarm(self, *a):
        raise Timeout("session step timed out")

    def _watched(self, step, h, n0):
        if self.snap_all or h.get("snap") == "all":
            return list(range(1, n0 + 1))
        ids = operand_ids(step)
        if step["op"] == "layer":
            ids = [i for i in ids if i != step["a"][1]]
        return sorted(set(ids))

    def given(self, c, own=True):
        """a container handed to the library: it has to come back unchanged, and `own` ones may be changed afterwards"""
        self._given.append((c, contents(c), own))
        return c

    def obj(self, o):
        return self.heap[o[1] - 1]

    def operand(self, o, r):
        return self.heap[o[1] - 1] if o[0] == "o" else self.num(o[1], r)

    def isnew(self, x, n0=None):
        return not any(x is y for y in self.heap)

    def new(self, x, bad=()):
        if not isinstance(x, sc.Stairs):
            raise Odd("returned " + type(x).__name__)
        fresh, x = self.isnew(x), self._back(x)
        f = snapshot(self.dom, x)
        res = {"k": "new", "f": f, "fresh": fresh, "bad": canon_bad(bad)}
        self.heap.append(x)
        self.info.append(f)
        return res

    def news(self, xs, bad=()):
        fs = []
        fresh = True
        for x in xs:
            if not isinstance(x, sc.Stairs):
                raise Odd("returned " + type(x).__name__)
            fresh = fresh and self.isnew(x)
        if len({id(x) for x in xs}) != len(xs):
            fresh = False
        xs = [self._back(x) for x in xs]
        fs = [snapshot(self.dom, x) for x in xs]
        self.heap.extend(xs)
        self.info.extend(fs)
        return {"k": "news", "fs": fs, "fresh": fresh, "bad": canon_bad(bad)}

    def val(self, x, bad=()):
        return {"k": "val", "x": x, "bad": canon_bad(bad)}

    # -------------------------------------------------------------- construction
    def _vec(self, ticks, r, kind=None):
        return self.given(self._vec1(ticks, r, kind))

    def _vec1(self, ticks, r, kind=None):
        """a vector of optional points in one of the accepted containers"""
        d = self.dom
        miss = None if d.datelike else r.choice([None, np.nan])
        if d.datelike:
            miss = r.choice([None, pd.NaT])
        labels = [d.label(t[0]) if t else miss for t in ticks]
        kind = kind or r.choice(["list", "tuple", "series", "oddseries", "array", "index"])
        if not labels:
            return []
        if kind == "tuple":
            return tuple(labels)
        if kind == "list":
            return labels
        ser = d.unit_of(pd.Series(labels), r)
        if all(not t for t in ticks):
            ser = pd.Series([np.nan] * len(ticks))
            if d.kind == "ts":
                ser = pd.Series(pd.to_datetime([None] * len(ticks)))
                if d.tz is not None and r.random() < 0.7:
                    ser = ser.dt.tz_localize(d.tz)
            if d.kind == "td":
                ser = pd.Series(pd.to_timedelta([None] * len(ticks)))
        if kind == "series":
            return ser
        if kind == "oddseries":
            ser.index = [(7 * k + 3) % 11 + k for k in range(len(ser))][::-1]
            return ser
        if kind == "index":
            return pd.Index(ser)
        if d.kind == "ts" and d.tz is not None:
            return ser.array if r.random() < 0.5 else ser
        return ser.values

    def _values(self, vs, r):
        return self.given(self._values1(vs, r))

    def _values1(self, vs, r):
        xs = [self.num(v, r, plain=True) for v in vs]
        k = r.choice(["list", "tuple", "array", "series", "intarray", "smallarray", "smallseries"])
        if self.c != 1 and k not in ("tuple", "array", "series"):
            return xs
        if k == "tuple":
            return tuple(xs)
        if k == "array":
            return np.array([float(x) for x in xs])
        if k == "series":
            return pd.Series([float(x) for x in xs], index=[5 * j % 7 for j in range(len(xs))])
        if k == "intarray" and all(v[1] == 1 for v in vs):
            return np.array([v[0] for v in vs], dtype="int64")
        if k in ("smallarray", "smallseries"):
            a = np.array([v[0] / v[1] for v in vs]).astype(smalldtype(vs, r))
            return a if k == "smallarray" else pd.Series(a, index=[5 * j % 7 for j in range(len(xs))])
        return xs

    def _layer(self, f, ts, h, r):
        route = h.get("route", "scalar")
        if route == "scalar":
            d = self.dom
            for t in ts:
                smiss = r.choice([None, None, -sc.inf, np.nan] + ([pd.NaT] if d.datelike else []))
                emiss = r.choice([None, None, sc.inf, np.nan] + ([pd.NaT] if d.datelike else []))
                s, e = opt(d, t["s"], r, smiss), opt(d, t["e"], r, emiss)
                v = None if t["v"] == [1, 1] and self.c == 1 and r.random() < 0.3 else self.num(t["v"], r)
                kw = {}
                if not (s is None and r.random() < 0.5):
                    kw["start"] = s
                if not (e is None and r.random() < 0.5):
                    kw["end"] = e
                if v is not None or r.random() < 0.5:
                    kw["value"] = v
                g = f.layer(**kw)
                if g is not f:
                    return g
            return f
        kw = self._vector_args(ts, h, r)
        return f.layer(**kw)

    def _vector_args(self, ts, h, r):
        ss, es, vs = [t["s"] for t in ts], [t["e"] for t in ts], [t["v"] for t in ts]
        n = len(ts)

        def pad(xs):
            k = n
            while k > 0 and not xs[k - 1] and r.random() < 0.6:
                k -= 1
            return xs[:k]

        route = h.get("route")
        if route in ("frame", "ctorframe"):
            df = pd.DataFrame({"s": self._vec1(ss, r, "series"), "e": self._vec1(es, r, "series")})
            df["v"] = [self.num(v, r, plain=True) for v in vs]
            k = r.random()
            if k < 0.4:
                df.index = range(100, 100 + n)
            elif k < 0.6:
                df.index = range(n - 1, -1, -1)
            elif k < 0.7:
                df.index = [7] * n
            kw = {"frame": self.given(df), "start": "s", "end": "e", "value": "v"}
            # columns beside vectors and scalars
            if r.random() < 0.1:
                kw["start"] = self._vec(ss, r)
            elif r.random() < 0.1:
                kw["end"] = self._vec(es, r)
            if len({tuple(v) for v in vs}) == 1 and r.random() < 0.3:
                kw["value"] = self.num(vs[0], r)
                if vs[0] == [1, 1] and self.c == 1 and r.random() < 0.5:
                    del kw["value"]
            elif r.random() < 0.1:
                kw["value"] = self._values(vs, r)
            if all(not e for e in es) and r.random() < 0.5:
                del kw["end"]
            elif all(not s for s in ss) and r.random() < 0.5:
                del kw["start"]
            return kw
        ps, pe = pad(ss), pad(es)
        if len(ps) < n and len(pe) < n:
            if r.random() < 0.5:
                ps = ss
            else:
                pe = es
        kw = {}
        if ps or (len(pe) < n or r.random() < 0.3):
            kw["start"] = self._vec(ps, r) if ps else r.choice([None, []])
        if pe or (len(ps) < n or r.random() < 0.3):
            kw["end"] = self._vec(pe, r) if pe else r.choice([None, []])
        if len({tuple(v) for v in vs}) == 1 and r.random() < 0.5:
            if vs[0] != [1, 1] or self.c != 1 or r.random() < 0.5:
                kw["value"] = self.num(vs[0], r)
        else:
            kw["value"] = self._values(vs, r)
        return kw

    def op_new(self, s, h, r):
        route = h.get("route", "scalar")
        kw = {"closed": s["c"]}
        if s["i"] != [0, 1] or r.random() < 0.5:
            kw["initial_value"] = self.num(s["i"], r)
        if s["c"] == "left" and r.random() < 0.5:
            del kw["closed"]
        ts = s["ts"]
        if route in ("ctor", "ctorframe") and ts:
            a = self._vector_args(ts, h, r)
            if any(a.get(k) is not None for k in ("start", "end", "value")):
                return self.new(sc.Stairs(**{**kw, **a}))
        if route == "ctorscalar" and len(ts) == 1:
            d = self.dom
            a = {"start": opt(d, ts[0]["s"], r), "end": opt(d, ts[0]["e"], r), "value": self.num(ts[0]["v"], r)}
            return self.new(sc.Stairs(**{**kw, **a}))
        f = sc.Stairs(**kw)
        if ts:
            f = self._layer(f, ts, h, r)
        return self.new(f)

    def op_fromvals(self, s, h, r):
        key = h.get("ser")
        if key is not None and key in self.series:
            ser = self.series[key]
        else:
            vals = [np.nan if v[1] == 0 else v[0] / v[1] for v in s["v"]]
            ser = pd.Series(vals, index=self.dom.unit_of(self.dom.index(s["p"]), r), dtype="float64")
            if all(v[1] for v in s["v"]) and r.random() < 0.5:
                ser = ser.astype(smalldtype(s["v"], r))
            if key is not None:
                self.series[key] = ser
        self.given(ser, key is None)
        return self.new(sc.Stairs.from_values(initial_value=scalar(s["i"], r), values=ser, closed=s["c"]))

    def op_copy(self, s, h, r):
        return self.new(self.obj(s["a"]).copy())

    def op_layer(self, s, h, r):
        f = self.obj(s["a"])
        g = self._layer(f, s["ts"], h, r)
        if not isinstance(g, sc.Stairs):
            raise Odd("layer returned " + type(g).__name__)
        o = snapshot(self.dom, f)
        self.info[s["a"][1] - 1] = o
        return {"k": "mut", "f": o, "self": g is f}

    # --------------------------------------------------------------------- reads
    def op_touch(self, s, h, r):
        f = self.obj(s["a"])
        w = s["f"]
        if w == "values":
            f.step_values
        elif w == "changes":
            f.step_changes
        elif w == "frame":
            f.to_frame()
        elif w == "points":
            f.step_points
            f.number_of_steps
        elif w == "limit":
            f.limit(self.dom.label(1), "left")
        elif w == "stats":
            for n in ("mean", "integral"):
                try:
                    getattr(f, n)()
                except Exception:
                    pass
        elif w == "dist":
            try:
                f.percentile(50)
                f.fractile(0.5)
                f.ecdf(1)
            except Exception:
                pass
        return {"k": "ok"}

    def op_views(self, s, h, r):
        f, d = self.obj(s["a"]), self.dom
        order = ["n", "p", "v", "i", "fr", "c"]
        r.shuffle(order)
        o = {"n": -1, "p": [], "vp": [], "v": [], "i": NAN, "tile": False, "fs": [], "fe": [], "fv": [], "cp": [], "cs": []}
        for w in order:
            if w == "n":
                n = f.number_of_steps
                o["n"] = int(n) if isinstance(n, (int, np.integer)) else -1
            elif w == "p":
                p = f.step_points
                if d.kind == "ts" and d.tz is not None:
                    p = [pd.Timestamp(x).tz_localize("UTC").tz_convert(d.tz) if pd.Timestamp(x).tz is None else x for x in p]
                o["p"] = [d.tick(x) for x in p]
            elif w == "v":
                x = f.step_values
                if not isinstance(x, pd.Series):
                    raise Odd("step_values")
                o["vp"] = [d.tick(t) for t in x.index]
                o["v"] = [rat(self.un(t)) for t in x.tolist()]
            elif w == "i":
                o["i"] = rat(self.un(f.initial_value))
            elif w == "c":
                x = f.step_changes
                if not isinstance(x, pd.Series):
                    raise Odd("step_changes")
                o["cp"] = [d.tick(t) for t in x.index]
                o["cs"] = [rat(self.un(t, 1, 0)) for t in x.tolist()]
            else:
                fr = f.to_frame()
                if not isinstance(fr, pd.DataFrame) or list(fr.columns)[:3] != ["start", "end", "value"]:
                    raise Odd("to_frame")
                st, en, va = fr["start"].tolist(), fr["end"].tolist(), fr["value"].tolist()

                def isinf(x, sign):
                    if x is (sc.inf if sign > 0 else -sc.inf) or type(x) is type(sc.inf if sign > 0 else -sc.inf):
                        return True
                    return isinstance(x, float) and x == sign * float("inf")

                o["tile"] = bool(st) and isinf(st[0], -1) and isinf(en[-1], 1)
                o["fs"] = [d.tick(t) for t in st[1:]]
                o["fe"] = [d.tick(t) for t in en[:-1]]
                o["fv"] = [rat(self.un(t)) for t in va]
                if not d.labels_ok(st[1:]) or not d.labels_ok(en[:-1]):
                    o["tile"] = False
        return self.val(o)

    # ----------------------------------------------------------------- operators
    SYM = {"add": "__add__", "sub": "__sub__", "mul": "__mul__", "div": "__truediv__", "lt": "__lt__", "le": "__le__",
           "gt": "__gt__", "ge": "__ge__", "eq": "__eq__", "ne": "__ne__", "and": "__and__", "or": "__or__", "xor": "__xor__"}
    METH = {"add": "add", "sub": "subtract", "mul": "multiply", "div": "divide", "lt": "lt", "le": "le", "gt": "gt",
            "ge": "ge", "eq": "eq", "ne": "ne", "and": "logical_and", "or": "logical_or", "xor": "logical_xor"}
    RMETH = {"add": "radd", "sub": "rsubtract", "mul": "rmultiply", "div": "rdivide", "and": "logical_rand",
             "or": "logical_ror", "xor": "logical_rxor"}

    @staticmethod
    def apply_op(f, a, b):
        import operator as o

        return {"add": o.add, "sub": o.sub, "mul": o.mul, "div": o.truediv, "lt": o.lt, "le": o.le, "gt": o.gt, "ge": o.ge,
                "eq": o.eq, "ne": o.ne, "and": o.and_, "or": o.or_, "xor": o.xor}[f](a, b)

    def op_un(self, s, h, r):
        f, w = self.obj(s["a"]), s["f"]
        if w == "neg":
            return self.new(-f if r.random() < 0.5 else f.negate())
        if w == "inv":
            return self.new(~f if r.random() < 0.5 else f.invert())
        if w == "bool":
            return self.new(f.make_boolean())
        return self.new(getattr(f, w)())

    def op_bin(self, s, h, r):
        a, b = self.operand(s["a"], r), self.operand(s["b"], r)
        form = h.get("form", "op")
        if form == "method" and isinstance(a, sc.Stairs):
            return self.new(getattr(a, self.METH[s["f"]])(b))
        if form == "rmethod" and isinstance(b, sc.Stairs) and not isinstance(a, sc.Stairs) and s["f"] in self.RMETH:
            return self.new(getattr(b, self.RMETH[s["f"]])(a))
        return self.new(self.apply_op(s["f"], a, b))

    def bounds(self, s, h, r, allow_str=True):
        d = self.dom

        def one(o, lo):
            if not o:
                c = [None, -sc.inf if lo else sc.inf]
                if h.get("finf"):
                    c = [float("-inf") if lo else float("inf"), -np.inf if lo else np.inf]
                return r.choice(c)
            if allow_str and h.get("str") and d.kind == "ts" and d.tz is None:
                return str(d.label(o[0]))
            return d.flavoured(o[0], r)

        return one(s["lo"], True), one(s["hi"], False)

    def op_clip(self, s, h, r):
        f = self.obj(s["a"])
        lo, hi = self.bounds(s, h, r)
        form = h.get("form", "pos")
        if form == "kw":
            kw = {}
            if lo is not None or r.random() < 0.3:
                kw["lower"] = lo
            if hi is not None or r.random() < 0.3:
                kw["upper"] = hi
            return self.new(f.clip(**kw))
        return self.new(f.clip(lo, hi))

    def op_mask(self, s, h, r):
        return self.new(self.obj(s["a"]).mask(self.obj(s["b"])))

    def op_where(self, s, h, r):
        return self.new(self.obj(s["a"]).where(self.obj(s["b"])))

    def op_masktup(self, s, h, r):
        return self.new(self.obj(s["a"]).mask(self.bounds(s, h, r)))

    def op_wheretup(self, s, h, r):
        return self.new(self.obj(s["a"]).where(self.bounds(s, h, r)))

    def op_fills(self, s, h, r):
        return self.new(self.obj(s["a"]).fillna(self.num(s["x"], r)))

    def op_fillm(self, s, h, r):
        return self.new(self.obj(s["a"]).fillna(s["f"]))

    def op_fillf(self, s, h, r):
        return self.new(self.obj(s["a"]).fillna(self.obj(s["b"])))

    def op_shift(self, s, h, r):
        return self.new(self.obj(s["a"]).shift(self.dom.delta(s["d"], r)))

    def op_diff(self, s, h, r):
        return self.new(self.obj(s["a"]).diff(self.dom.delta(s["d"], r)))

    # --------------------------------------------------------------- collections
    def container(self, objs, kind, r):
        return self.given(self._container(objs, kind, r), False)

    def _container(self, objs, kind, r):
        if kind == "tuple":
            return tuple(objs)
        if kind == "dict":
            return {"k%d" % i: x for i, x in enumerate(objs)}
        if kind == "array":
            a = np.empty(len(objs), dtype=object)
            for i, x in enumerate(objs):
                a[i] = x
            return a
        if kind == "series":
            return pd.Series(objs, index=["n%d" % i for i in range(len(objs))], dtype="Stairs")
        if kind == "objseries":
            return pd.Series(list(objs), index=list(range(len(objs)))[::-1], dtype=object)
        if kind == "dupseries":
            return pd.Series(list(objs), index=["x"] * len(objs), dtype="Stairs")
        if kind == "stairsarray":
            return sc.StairsArray(list(objs))
        if kind == "pandas":  # a Series that went through pandas
            ser = pd.Series(list(objs), dtype="Stairs")
            n = len(objs)
            k = r.choice(["concat", "take", "iloc", "copy", "frame", "mask", "astype", "reindex"])
            if k == "concat":
                c = r.randint(0, n)
                parts = [pd.Series(list(objs[:c]), dtype="Stairs"), pd.Series(list(objs[c:]), dtype="Stairs")]
                return pd.concat([x for x in parts if len(x)])
            if k == "take":
                return ser.iloc[::-1].take(list(range(n))[::-1])
            if k == "iloc":
                return ser.iloc[0:n]
            if k == "frame":
                return pd.DataFrame({"a": range(n), "s": ser})["s"]
            if k == "mask":
                return ser[[True] * n]
            if k == "astype":
                return pd.Series(list(objs), dtype=object).astype("Stairs")
            if k == "reindex":
                return ser.sort_index(ascending=False).sort_index()
            return ser.copy()
        if kind == "arrops":  # a StairsArray that was sliced, copied, put together
            arr = sc.StairsArray(list(objs))
            k = r.choice(["copy", "slice", "take", "concat", "nested", "set", "mask"])
            if k == "slice":
                return arr[0 : len(objs)]
            if k == "take":
                return arr.take(list(range(len(objs))))
            if k == "concat":
                c = r.randint(0, len(objs))
                return sc.StairsArray._concat_same_type([x for x in (arr[:c], arr[c:]) if len(x)])
            if k == "nested":
                return sc.StairsArray(arr)
            if k == "mask":
                return arr[np.array([True] * len(objs))]
            if k == "set":
                j = r.randrange(len(objs))
                arr = sc.StairsArray(list(objs[:j]) + [sc.Stairs()] + list(objs[j + 1 :]))
                arr[j] = objs[j]
                return arr
            return arr.copy()
        return list(objs)

    def op_agg(self, s, h, r):
        objs = [self.heap[i - 1] for i in s["ids"]]
        c = self.container(objs, h.get("cont", "list"), r)
        n = s["f"]
        form = h.get("form", "top")
        if form == "array":
            arr = c if isinstance(c, sc.StairsArray) else sc.StairsArray(c)
            return self.new(getattr(arr, n)())
        if form == "acc" and n in ("logical_or", "logical_and"):
            c = pd.Series(list(objs), dtype="Stairs")
            return self.new(getattr(c.sc, n)())
        if form == "reduce" and n in ("sum", "mean", "min", "max", "median"):
            c = pd.Series(list(objs), dtype="Stairs")
            return self.new(getattr(c, n)())
        if form == "func" and n in ("sum", "mean", "median", "min", "max"):
            return self.new(sc.agg(c, getattr(np, n)))
        return self.new(getattr(sc, n)(c))

    def op_arrbin(self, s, h, r):
        objs = [self.heap[i - 1] for i in s["ids"]]
        arr = sc.StairsArray(self.container(objs, h.get("cont", "list"), r))
        b = s["b"]
        if b[0] == "l":
            other = [self.heap[i - 1] for i in b[1]]
            other = self.container(other, h.get("cont2", "stairsarray"), r)
        else:
            other = self.operand(b, r)
        form = h.get("form", "op")
        m = {"add": "add", "sub": "subtract", "mul": "multiply", "div": "divide"}.get(s["f"], s["f"])
        if form == "series":
            arr = pd.Series(arr, dtype="Stairs")
        elif form == "method":
            y = getattr(arr, ("r" if s["rev"] else "") + m)(other)
            return self._arr(y)
        y = self.apply_op(s["f"], other, arr) if s["rev"] else self.apply_op(s["f"], arr, other)
        return self._arr(y)

    def _arr(self, y):
        if isinstance(y, pd.Series):
            y = y.array if isinstance(y.dtype, sc.core.arrays.extension.StairsDtype) else y.tolist()
        if isinstance(y, sc.StairsArray):
            y = list(y.data)
        if not isinstance(y, (list, np.ndarray)):
            raise Odd("returned " + type(y).__name__)
        return self.news(list(y))

    def op_arrneg(self, s, h, r):
        objs = [self.heap[i - 1] for i in s["ids"]]
        arr = sc.StairsArray(self.container(objs, h.get("cont", "list"), r))
        return self._arr(-arr if r.random() < 0.5 else arr.negate())

    def op_table(self, s, h, r):
        objs = [self.heap[i - 1] for i in s["ids"]]
        xs = [self.dom.label(t) for t in s["xs"]]
        k = r.random()
        if k < 0.2:
            xs = tuple(xs)
        elif k < 0.5 and xs:
            xs = self.dom._mkindex(xs)
        form = h.get("form", "top")
        bad = []
        if form == "acc":
            ser = pd.Series(list(objs), index=["n%d" % i for i in range(len(objs))], dtype="Stairs")
            t = ser.sc.sample(xs) if s["side"] == "" else ser.sc.limit(xs, s["side"])
            if list(t.index) != list(ser.index):
                bad.append("index")
        elif form == "array":
            arr = sc.StairsArray(list(objs))
            t = arr.sample(xs) if s["side"] == "" else arr.limit(xs, s["side"])
        else:
            c = self.container(objs, h.get("cont", "list"), r)
            t = sc.sample(c, xs) if s["side"] == "" else sc.limit(c, xs, s["side"])
            if isinstance(c, dict) and list(t.index) != list(c):
                bad.append("index")
            if isinstance(c, pd.Series) and list(t.index) != list(c.index):
                bad.append("index")
        if not isinstance(t, pd.DataFrame):
            raise Odd("table " + type(t).__name__)
        if [self.dom.tick(x) for x in t.columns] != s["xs"]:
            bad.append("columns")
        return self.val([[rat(self.un(v)) for v in row] for row in t.values.tolist()], bad)

    # ------------------------------------------------------------------- queries
    def op_limit(self, s, h, r):
        f, d, side = self.obj(s["a"]), self.dom, s["side"]
        return self._points(s, h, r, lambda x, **k: f.limit(x, side, **k), [])

    def op_sample(self, s, h, r):
        f = self.obj(s["a"])
        return self._points(s, h, r, lambda x, **k: f.sample(x, **k), [("call", lambda x: f(x))])

    def _points(self, s, h, r, func, extra):
        d = self.dom
        labels = [d.label(t) for t in s["xs"]]
        bad = []
        base = None

        def note(name, got):
            nonlocal base
            if base is None:
                base = got
            elif got != base:
                bad.append(name)

        kinds = {}
        kinds["list"] = lambda: [rat(self.un(v)) for v in np.asarray(func(list(labels))).tolist()]
        kinds["tuple"] = lambda: [rat(self.un(v)) for v in np.asarray(func(tuple(labels))).tolist()]
        kinds["index"] = lambda: [rat(self.un(v)) for v in np.asarray(func(d.unit_of(d._mkindex(labels), r))).tolist()]
        kinds["series"] = lambda: [rat(self.un(v)) for v in np.asarray(func(d.unit_of(pd.Series(labels, index=range(9, 9 + len(labels))), r))).tolist()]
        if d.kind != "ts" or d.tz is None:
            kinds["array"] = lambda: [rat(self.un(v)) for v in np.asarray(func(d.unit_of(d._mkindex(labels), r).values)).tolist()]

        def include():
            y = func(list(labels), include_index=True)
            if not isinstance(y, pd.Series):
                return "no series"
            if [d.tick(t) for t in y.index] != s["xs"]:
                return "index"
            return [rat(self.un(v)) for v in y.tolist()]

        def includescalar():
            out = []
            for t, x in zip(s["xs"], labels):
                y = func(x, include_index=True)
                if not isinstance(y, pd.Series) or len(y) != 1 or d.tick(y.index[0]) != t:
                    return "no series"
                out.append(rat(self.un(y.iloc[0])))
            return out

        def scalars():
            out = []
            for t in s["xs"]:
                y = func(d.flavoured(t, r))
                out.append(rat(self.un(y)))
            return out

        kinds["scalar"] = scalars
        kinds["include"] = include
        kinds["includescalar"] = includescalar
        for nm, fn in extra:
            kinds[nm] = lambda fn=fn: [rat(self.un(v)) for v in np.asarray(fn(list(labels))).tolist()]
        names = list(kinds)
        r.shuffle(names)
        if "include" in names[:1] or "includescalar" in names[:1]:
            names.append(names.pop(0))
            if names[0].startswith("include"):
                names.append(names.pop(0))
        keep = names if h.get("forms", "all") == "all" else names[: h["forms"]]
        for nm in keep:
            note(nm, kinds[nm]())
        if not isinstance(base, list) or any(not isinstance(v, list) for v in base):
            raise Odd("points")
        return self.val(base, bad)

    def op_ident(self, s, h, r):
        a, b = self.operand(s["a"], r), self.operand(s["b"], r)
        y = a.identical(b) if isinstance(a, sc.Stairs) else b.identical(a)
        bad = []
        if isinstance(b, sc.Stairs) and isinstance(a, sc.Stairs) and bool(b.identical(a)) != bool(y):
            bad.append("symmetry")
        if not isinstance(y, (bool, np.bool_)):
            raise Odd("identical returned " + type(y).__name__)
        return self.val(bool(y), bad)

    def op_law(self, s, h, r):
        """both sides of an identity of pointwise algebra, computed by the library and compared by identical()"""
        x, y, z = [self.heap[i - 1] for i in s["ids"]]
        c = scalar(s["x"], r)
        d = self.dom.delta(s["d"], r)
        lo, hi = self.bounds(s, h, r, allow_str=False)
        pairs = laws.LAWS[s["f"]](x, y, z, c, d, lo, hi)
        ok, bad = True, []
        for n, (a, b) in enumerate(pairs):
            if not isinstance(a, sc.Stairs):
                raise Odd("returned " + type(a).__name__)
            y1 = a.identical(b)
            y2 = b.identical(a) if isinstance(b, sc.Stairs) else y1
            if not isinstance(y1, (bool, np.bool_)):
                raise Odd("identical returned " + type(y1).__name__)
            if bool(y1) != bool(y2):
                bad.append("symmetry")
            ok = ok and bool(y1)
        return self.val(ok, bad)

    def op_truth(self, s, h, r):
        return self.val(bool(self.obj(s["a"])))

    def op_poke(self, s, h, r):
        """change the object a query returned: the receiver and its later answers must not change"""
        f = self.obj(s["a"])
        if s["f"] in ("step_values", "step_changes", "to_frame", "value_sums", "sample"):
            try:
                d = getattr(f, s["f"])
                if s["f"] == "sample":
                    d = d(f.step_points, include_index=True) if r.random() < 0.5 else d(f.step_points)
                elif callable(d):
                    d = d()
                if isinstance(d, pd.DataFrame):
                    d.iloc[:, 2] = 77.0
                elif isinstance(d, pd.Series):
                    d.iloc[:] = d.iloc[0] if s["f"] == "value_sums" else 77.0
                elif isinstance(d, np.ndarray):
                    d[:] = 77.0
            except Exception:
                pass
            return {"k": "ok"}
        try:
            d = getattr(f, s["f"])
        except Exception:
            return {"k": "ok"}
        d.layer(0.25, 0.75, 3) if r.random() < 0.5 else d.layer([0, 50], [1, 75], [2, 5])
        return {"k": "ok"}

    # statistics: one implementation, also used for a freshly built equal object
    def op_stat(self, s, h, r):
        return self._query(s, h, r, self._q_stat)

    def _fresh(self, f):
        """an equal function built from scratch"""
        o = peek(f)
        sv = o.step_values
        g = sc.Stairs(initial_value=o.initial_value, closed=o.closed)
        if len(sv):
            g = sc.Stairs.from_values(o.initial_value, pd.Series(sv.values.copy(), index=sv.index.copy()), closed=o.closed)
        return g

    def _query(self, s, h, r, q):
        f = self.obj(s["a"])
        bad = []
        seed = r.random()
        if not self.fresh:
            x = q(f, s, h, random.Random(seed), bad)
            return self.val(x, bad)
        # staleness comparison: same query to a fresh equal object (and twice to this one)
        def run(obj):
            b = []
            try:
                return ["v", q(obj, s, h, random.Random(seed), b), b]
            except Timeout:
                raise
            except Odd as e:
                return ["odd", str(e), []]
            except Exception as e:
                return ["e", type(e).__name__, []]

        g = self._fresh(f)
        y1 = run(f)
        y2 = run(g)
        y3 = run(f)
        if y1 != y2:
            bad.append("stale")
        if y1 != y3:
            bad.append("unstable")
        if y1[0] == "v":
            return self.val(y1[1], bad + y1[2])
        if y1[0] == "odd":
            raise Odd(y1[1])
        if bad:
            return {"k": "val", "x": [], "bad": canon_bad(bad)}
        return {"k": "err", "e": y1[1], "bad": []} if y1[0] == "e" else None

    def _scale(self):
        """magnitude of the values the current call works on"""
        m = 1.0
        for i in self._ids:
            f = self.info[i - 1]
            for n, d in [f["i"]] + f["v"]:
                if d > 0:
                    m = max(m, abs(n / d))
        return m

    def _num(self, y, power=1):
        s = self._scale() ** power
        return stat(y, s, self.dom.resolution * s)

    def _len(self, y):
        return statlen(self.dom, y, self._scale())

    def _statval(self, y, name):
        y = self.un(y, 2 if name == "var" else 1)
        if name == "integral":
            return self._len(y)
        if name == "std":
            if not isinstance(y, (float, int, np.number)) or not abs(float(y)) < 1e9:  # NaN, infinite, not a number
                return rat(y)
            return self._num(Fraction(float(y)) ** 2, 2)
        if name in ("mode", "min", "max"):
            return rat(y)
        return self._num(y, 2 if name == "var" else 1)

    def _q_stat(self, f, s, h, r, bad):
        n = s["f"]
        form = h.get("form", "method")
        if form == "agg":
            y = f.agg(n)
        elif form == "aggwhere":
            y = f.agg(n, (-sc.inf, sc.inf))
        elif form == "agglist":
            names = self._names(n, r)
            y = f.agg(names)
            if list(y.index) != names:
                bad.append("index")
            y = y[n]
        elif form == "median50" and n == "median":
            y = f.percentile(50)
        else:
            y = getattr(f, n)()
        return self._statval(y, n)

    def _names(self, n, r):
        """a list of statistics, the wanted one among them"""
        names = [x for x in ("min", "max", "mean") if x != n and r.random() < 0.4] + [n]
        r.shuffle(names)
        return names

    def op_aggstat(self, s, h, r):
        return self._query(s, h, r, self._q_aggstat)

    def _q_aggstat(self, f, s, h, r, bad):
        lo, hi = self.bounds(s, h, r, allow_str=False)
        w = (lo, hi) if r.random() < 0.6 else [lo, hi]
        if w == [None, None] or w == (None, None):
            w = (-sc.inf, sc.inf)
        kw = {}
        if s["cl"]:
            kw["closed"] = s["cl"]
        form = h.get("form", "agg")
        n = s["f"]
        if form == "direct" and n in ("min", "max") and s["cl"] == "" and not s["lo"] and not s["hi"]:
            y = getattr(f, n)()
        elif form == "list":
            names = self._names(n, r)
            y = f.agg(names, w, **kw)
            if list(y.index) != names:
                bad.append("index")
            y = y[n]
        elif w == (-sc.inf, sc.inf) and r.random() < 0.5:
            y = f.agg(n, **kw)
        elif form == "clip" and n not in ("min", "max") and (s["lo"] or s["hi"]):
            y = getattr(f.clip(lo, hi), n)()
        else:
            y = f.agg(n, w, **kw)
        return self._statval(y, n)

    def op_vsums(self, s, h, r):
        return self._query(s, h, r, self._q_vsums)

    def _q_vsums(self, f, s, h, r, bad):
        y = f.value_sums() if r.random() < 0.7 else f.value_sums(dropna=True, group=True)
        return self._sums(y)

    def _sums(self, y):
        if not isinstance(y, pd.Series):
            raise Odd("value_sums " + type(y).__name__)
        out = []
        for v, ln in zip(y.index.tolist(), list(y)):
            a, b = rat(self.un(v)), ratlen(self.dom, ln)
            if a[1] == 0 or b[1] != 1:
                out.append([a, -1])
            else:
                out.append([a, b[0]])
        out.sort(key=lambda t: (t[0][0] / t[0][1]) if t[0][1] else float("inf"))
        return out

    def op_vsumsna(self, s, h, r):
        return self._query(s, h, r, self._q_vsumsna)

    def _q_vsumsna(self, f, s, h, r, bad):
        y = f.value_sums(dropna=False)
        if not isinstance(y, pd.Series):
            raise Odd("value_sums " + type(y).__name__)
        na = y[y.index.isna()]
        if len(na) > 1:
            raise Odd("several NaN groups")
        ln = 0
        if len(na):
            q = ratlen(self.dom, list(na)[0])
            ln = q[0] if q[1] == 1 else -1
        return [self._sums(y[~y.index.isna()]), ln]

    def op_ecdf(self, s, h, r):
        return self._query(s, h, r, self._q_ecdf)

    def _q_ecdf(self, f, s, h, r, bad):
        e = f.ecdf
        ys = [self.num(y, r, plain=True) for y in s["ys"]]
        if s["side"] == "left":
            v = e.limit(ys, "left")
            return [self._num(x) for x in np.asarray(v).tolist()]
        k = h.get("form", "call")
        if k == "scalar":
            return [self._num(e(y)) for y in ys]
        if k == "sample":
            return [self._num(x) for x in np.asarray(e.sample(ys)).tolist()]
        if k == "limit":
            return [self._num(x) for x in np.asarray(e.limit(ys, "right")).tolist()]
        return [self._num(x) for x in np.asarray(e(ys)).tolist()]

    def op_pct(self, s, h, r):
        return self._query(s, h, r, lambda f, s, h, r, bad: self._q_tile(self._tile(f, r, 100), s, h, r, bad))

    def op_frac(self, s, h, r):
        return self._query(s, h, r, lambda f, s, h, r, bad: self._q_tile(self._tile(f, r, 1), s, h, r, bad))

    @staticmethod
    def _tile(f, r, scale):
        """the percentile / fractile function through one of the routes that lead to it"""
        k = r.random()
        if k < 0.15:
            return f.ecdf.percentiles() if scale == 100 else f.ecdf.fractiles()
        if k < 0.25 and scale == 100:
            return f.fractile.to_percentiles()
        if k < 0.35:
            return (f.percentile if scale == 100 else f.fractile).copy()
        return f.percentile if scale == 100 else f.fractile

    def _q_tile(self, p, s, h, r, bad):
        qs = [scalar(y, r, plain=True) for y in s["qs"]]
        k = h.get("form", "call")
        if k == "scalar":
            return [self._num(self.un(p(y))) for y in qs]
        if k == "sample":
            return [self._num(self.un(x)) for x in np.asarray(p.sample(qs)).tolist()]
        return [self._num(self.un(x)) for x in np.asarray(p(np.array(qs) if r.random() < 0.5 else qs)).tolist()]

    def op_quant(self, s, h, r):
        return self._query(s, h, r, lambda f, s, *a: [self._num(self.un(x)) for x in np.asarray(f.quantiles(s["q"])).tolist()])

    def op_hist(self, s, h, r):
        return self._query(s, h, r, self._q_hist)

    def _bins(self, s, h, r):
        edges = [b[0] for b in s["bins"]] + [s["bins"][-1][1]] if s["bins"] else []
        contiguous = all(s["bins"][k][1] == s["bins"][k + 1][0] for k in range(len(s["bins"]) - 1))
        if not s["bins"]:
            return "unit"
        num = lambda v: v[0] if v[1] == 1 and h.get("intbins") and self.c == 1 and not self.k else self.num(v, r, plain=True)
        if not contiguous or h.get("form") == "ii":
            return pd.IntervalIndex.from_tuples([(num(b[0]), num(b[1])) for b in s["bins"]], closed=s["side"])
        xs = [num(e) for e in edges]
        return r.choice([xs, tuple(xs), np.array(xs)])

    @staticmethod
    def _binside(kw, bins, s, r):
        """`closed` is only relevant for bins that are no IntervalIndex"""
        if isinstance(bins, pd.IntervalIndex):
            k = r.choice(["omit", "same", "other"])
            if k != "omit":
                kw["closed"] = s["side"] if k == "same" else "right" if s["side"] == "left" else "left"
        elif s["side"] != "left" or r.random() < 0.5:
            kw["closed"] = s["side"]

    def _hist_val(self, y, stat):
        if stat in ("density", "frequency"):  # per unit of the values
            y = self.un(y, -1, 0)
        if stat in ("sum", "frequency"):
            return statlen(self.dom, y, 1.0)
        return self._num(y)

    def _q_hist(self, f, s, h, r, bad):
        bins = self._bins(s, h, r)
        kw = {}
        if bins != "unit" if isinstance(bins, str) else True:
            kw["bins"] = bins
        self._binside(kw, bins, s, r)
        if s["stat"] != "sum" or r.random() < 0.5:
            kw["stat"] = s["stat"]
        y = f.hist(**kw)
        if not isinstance(y, pd.Series) or not isinstance(y.index, pd.IntervalIndex):
            raise Odd("hist " + type(y).__name__)
        if y.index.closed != s["side"]:
            bad.append("closed")
        bs = [[rat(self.un(i.left)), rat(self.un(i.right))] for i in y.index]
        return {"b": bs, "x": [self._hist_val(v, s["stat"]) for v in y.tolist()]}

    def op_describe(self, s, h, r):
        return self._query(s, h, r, self._q_describe)

    def _q_describe(self, f, s, h, r, bad):
        kw = {}
        if s["lo"] or s["hi"] or r.random() < 0.3:
            lo, hi = self.bounds(s, h, r, allow_str=False)
            kw["where"] = (lo, hi)
        qs = [scalar(q, r, plain=True) for q in s["qs"]]
        if s["qs"] != [[25, 1], [50, 1], [75, 1]] or r.random() < 0.5:
            kw["percentiles"] = qs
        y = f.describe(**kw)
        if not isinstance(y, pd.Series):
            raise Odd("describe " + type(y).__name__)
        keys = ["unique", "mean", "std", "min"] + [f"{q}%" for q in (kw.get("percentiles") or (25, 50, 75))] + ["max"]
        if [str(k) for k in y.index] != keys:
            raise Odd("describe keys")
        out = []
        for k, v in zip(keys, y.tolist()):
            self._plain(v)
            out.append(self._statval(v, "std" if k == "std" else "x") if k != "unique" else self._num(v))
        return out

    @staticmethod
    def _plain(v):
        if not isinstance(v, (int, float, np.number)):
            raise Odd("not a plain number: " + type(v).__name__)
        return v

    def op_vir(self, s, h, r):
        return self._query(s, h, r, self._q_vir)

    def _q_vir(self, f, s, h, r, bad):
        kw = {}
        if s["lo"] or s["hi"] or r.random() < 0.5:
            lo, hi = self.bounds(s, h, r, allow_str=False)
            kw["where"] = (lo, hi)
        if s["cl"]:
            kw["closed"] = s["cl"]
        y = f.values_in_range(**kw)
        vs = [rat(self.un(v)) for v in np.asarray(y).tolist()]
        seen = []
        for v in sorted(vs, key=lambda t: (t[1] == 0, t[0] / t[1] if t[1] else t[0])):
            if v not in seen:
                seen.append(v)
        return seen

    # ------------------------------------------------------------------- slicing
    def slicer(self, s, h, r):
        f, d = self.obj(s["a"]), self.dom
        ivs, cl = s["ivs"], s["cl"]
        kind = h.get("cuts", "ii")
        tiles = all(ivs[k][1] == ivs[k + 1][0] for k in range(len(ivs) - 1))
        if kind == "breaks" and tiles:
            pts = [i[0] for i in ivs] + [ivs[-1][1]]
            cuts = d.index(pts)
            if r.random() < 0.4:
                cuts = [d.label(t) for t in pts]
            ii = pd.IntervalIndex.from_breaks(d.index(pts), closed=cl)
            if cl == "left" and r.random() < 0.5:
                return f.slice(cuts), ii
            return f.slice(cuts, closed=cl), ii
        if kind == "period" and d.name in ("ts", "tsd") and len({i[1] - i[0] for i in ivs}) == 1:
            n = ivs[0][1] - ivs[0][0]
            freq = ("%dh" if d.name == "ts" else "%dD") % n if n > 1 else "h" if d.name == "ts" else "D"
            per = pd.PeriodIndex([pd.Period(d.label(i[0]), freq=freq) for i in ivs])
            ii = pd.IntervalIndex.from_arrays(d.index([i[0] for i in ivs]), d.index([i[1] for i in ivs]), closed=cl)
            if cl == "left" and r.random() < 0.3:
                return f.slice(per), ii
            return f.slice(per, closed=cl), ii
        ii = pd.IntervalIndex.from_arrays(d.index([i[0] for i in ivs]), d.index([i[1] for i in ivs]), closed=cl)
        return f.slice(ii), ii

    def _ii_ok(self, y, ii, bad):
        ix = y.index
        if not isinstance(ix, pd.IntervalIndex) or ix.closed != ii.closed or not ix.equals(ii):
            bad.append("index")

    def op_slstat(self, s, h, r):
        sl, ii = self.slicer(s, h, r)
        n, form, bad = s["f"], h.get("form", "method"), []
        if form == "twice":
            getattr(sl, "mean")()
        if form == "agg":
            y = sl.agg(n)[n]
        elif form == "agglist":
            y = sl.agg(["mean", n] if n != "mean" else ["integral", n])[n]
        elif form == "apply" and n not in ("min", "max"):
            y = sl.apply(getattr(sc.Stairs, n))
        else:
            y = getattr(sl, n)()
        if not isinstance(y, pd.Series):
            raise Odd("slicer " + type(y).__name__)
        self._ii_ok(y, ii, bad)
        return self.val([self._statval(v, n) for v in list(y)], bad)

    def op_slmode(self, s, h, r):
        sl, ii = self.slicer(s, h, r)
        bad = []
        y = sl.mode()
        self._ii_ok(y, ii, bad)
        return self.val([rat(self.un(v)) for v in list(y)], bad)

    def op_slhist(self, s, h, r):
        sl, ii = self.slicer(s, h, r)
        bad = []
        if h.get("form") == "unit" and self.c == 1 and not self.k:
            return self._slunit(sl, ii, s, r)
        bins = self._bins(s, h, r)
        kw = {"bins": bins, "stat": s["stat"]}
        self._binside(kw, bins, s, r)
        y = sl.hist(**kw)
        if not isinstance(y, pd.DataFrame):
            raise Odd("slicer hist " + type(y).__name__)
        self._ii_ok(y, ii, bad)
        return self.val([[self._hist_val(v, s["stat"]) for v in y.iloc[k].tolist()] for k in range(len(y))], bad)

    def _slunit(self, sl, ii, s, r):
        """default bins: those of the slice, each of length one; the bins of the call cover them all"""
        kw = {"closed": s["side"]} if s["side"] != "left" or r.random() < 0.5 else {}
        if s["stat"] != "sum" or r.random() < 0.5:
            kw["stat"] = s["stat"]
        y = sl.hist("unit", **kw) if r.random() < 0.5 else sl.hist(**kw)
        if not isinstance(y, pd.DataFrame):
            raise Odd("slicer hist " + type(y).__name__)
        bad = []
        self._ii_ok(y, ii, bad)
        at = {(rat(i.left)[0], rat(i.right)[0]): k for k, i in enumerate(y.columns) if i.closed == s["side"]}
        want = [(b[0][0], b[1][0]) for b in s["bins"]]
        if len(at) != len(y.columns) or not set(at) <= set(want):
            bad.append("index")
        zero = self._hist_val(self.dom.delta(0) if s["stat"] in ("sum", "frequency") and self.dom.kind in ("ts", "td") else 0, s["stat"])
        return self.val([[self._hist_val(y.iloc[k, at[b]], s["stat"]) if b in at else zero for b in want] for k in range(len(y))], bad)

    def op_slices(self, s, h, r):
        sl, ii = self.slicer(s, h, r)
        y = sl.apply(lambda x: x)
        bad = []
        self._ii_ok(y, ii, bad)
        return self.news(list(y), bad)

    def op_resample(self, s, h, r):
        s2 = {**s, "ivs": [[s["b"][k], s["b"][k + 1]] for k in range(len(s["b"]) - 1)]}
        sl, ii = self.slicer(s2, h, r)
        return self.new(sl.resample(s["f"]))

    # -------------------------------------------------------------------- cov/corr
    def _covargs(self, s, h, r):
        d = self.dom
        kw = {"where": self.bounds(s, h, r, allow_str=False)}
        if not s["lo"] and not s["hi"] and r.random() < 0.5:
            del kw["where"]
        elif r.random() < 0.2:
            kw["where"] = list(kw["where"])
        if s["d"] != 0:
            kw["lag"] = d.delta(s["d"])
            if s["clip"] != "pre" or r.random() < 0.5:
                kw["clip"] = s["clip"]
        return kw

    def op_cov(self, s, h, r):
        f, g = self.obj(s["a"]), self.obj(s["b"])
        return self.val(self._num(self.un(f.cov(g, **self._covargs(s, h, r)), 2), 2))

    def _corr(self, y):
        if not isinstance(y, (float, int, np.number)):
            raise Odd("corr " + type(y).__name__)
        x = float(y)
        if x != x:
            return [0, NAN]
        if abs(x) > 1 + 1e-9:
            return [5, [5, 0]]
        if abs(x) < 1e-7:
            return [0, [0, 1]]
        return [1 if x > 0 else -1, self._num(Fraction(x) ** 2, 2)]

    def op_corr(self, s, h, r):
        f, g = self.obj(s["a"]), self.obj(s["b"])
        return self.val(self._corr(f.corr(g, **self._covargs(s, h, r))))

    def _matrix(self, s, h, r, which):
        objs = [self.heap[i - 1] for i in s["ids"]]
        d = self.dom
        w = self.bounds(s, h, r, allow_str=False)
        kw = {"where": r.choice([w, w, list(w)])}
        if not s["lo"] and not s["hi"] and r.random() < 0.6:
            kw = {}
        form = h.get("form", "top")
        bad = []
        if form == "array":
            m = getattr(sc.StairsArray(list(objs)), which)(**kw)
        elif form == "acc":
            ser = pd.Series(list(objs), index=["n%d" % i for i in range(len(objs))], dtype="Stairs")
            m = getattr(ser.sc, which)(**kw)
            if list(m.index) != list(ser.index) or list(m.columns) != list(ser.index):
                bad.append("index")
        else:
            c = self.container(objs, h.get("cont", "list"), r)
            m = getattr(sc, which)(c, **kw)
        m = np.asarray(m, dtype=float)
        enc = (lambda v: self._num(self.un(v, 2), 2)) if which == "cov" else self._corr
        return self.val([[enc(v) for v in row] for row in m.tolist()], bad)

    def op_covm(self, s, h, r):
        return self._matrix(s, h, r, "cov")

    def op_corrm(self, s, h, r):
        return self._matrix(s, h, r, "corr")

    # ---------------------------------------------------------------- rolling mean
    def op_roll(self, s, h, r):
        f, d = self.obj(s["a"]), self.dom
        lo, hi = self.bounds(s, h, r, allow_str=False)
        w = (d.delta(s["l"]), d.delta(s["r"]))
        if r.random() < 0.4:
            w = list(w)
        kw = {"window": w}
        if s["lo"] or s["hi"] or r.random() < 0.3:
            kw["where"] = (lo, hi)
        y = f.rolling_mean(**kw)
        if not isinstance(y, pd.Series):
            raise Odd("rolling_mean " + type(y).__name__)
        bad = []
        unbounded = any(isinstance(t, float) and abs(t) == float("inf") or isinstance(t, (type(sc.inf), type(-sc.inf))) for t in y.index)
        if not unbounded and not d.labels_ok(list(y.index)):
            bad.append("labels")
        return self.val({"x": [d.tick(t) for t in y.index], "y": [self._num(self.un(v)) for v in y.tolist()]}, bad)


def replay(program, domain, snap_all=False, fresh=False, alt=False):
    s = Session(domain)
    s.snap_all, s.fresh, s.alt = snap_all, fresh, alt
    try:
        for step in program:
            step = dict(step)
            h = step.pop("h", {})
            op = step.pop("op")
            s.do(op, h, **step)
    except Stop:
        pass
    return s
