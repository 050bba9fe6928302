"""Domains: the label of integer tick t is origin + t * unit.

The specification speaks about ticks only; a Domain re-labels ticks for the real code and decodes the labels the
real code returns, exactly (no rounding)."""
import datetime
import random
from fractions import Fraction

import numpy as np
import pandas as pd

BAD = 999999999  # a label that is no tick of the domain


class Domain:
    def __init__(self, name, kind, origin, unit, tz=None):
        self.name, self.kind, self.origin, self.unit, self.tz = name, kind, origin, unit, tz
        self.mixed = 0.0  # how often an integral label is an int, in a float domain
        self.halves = False  # step points on even ticks (integers), most queries anywhere
        self.mixr = random.Random(0)
        if kind in ("int", "float"):
            self.unit_q = Fraction(unit)
            self.origin_q = Fraction(origin)
        else:
            self.unit_q = Fraction(pd.Timedelta(unit).value)
            self.origin_q = Fraction(pd.Timestamp(origin).value if kind == "ts" else pd.Timedelta(origin).value)

    @property
    def resolution(self):
        """rounding of lengths to nanoseconds, in ticks"""
        return 64 / float(self.unit_q) if self.datelike else 0.0

    @property
    def datelike(self):
        return self.kind in ("ts", "td")

    # ---------------------------------------------------------------- labels
    def _ns(self, t):
        return int(self.origin_q + self.unit_q * t)

    def label(self, t):
        if self.kind == "int":
            return int(self.origin + t * self.unit)
        if self.kind == "float":
            x = float(self.origin + t * self.unit)
            return int(x) if self.mixed and x == int(x) and self.mixr.random() < self.mixed else x
        if self.kind == "ts":
            x = pd.Timestamp(self._ns(t))
            return x.tz_localize("UTC").tz_convert(self.tz) if self.tz is not None else x
        return pd.Timedelta(self._ns(t), unit="ns")

    def flavoured(self, t, r):
        """the same instant in another Python/numpy/pandas scalar type"""
        x = self.label(t)
        if self.kind == "int":
            return r.choice([x, x, np.int64(x), float(x), np.float64(x)])
        if self.kind == "float":
            c = [x, x, np.float64(x)]
            if x == int(x):
                c.append(int(x))
            return r.choice(c)
        if self.kind == "ts":
            c = [x, x]
            if x.nanosecond == 0:
                c.append(x.to_pydatetime())
            if self.tz is None:
                c.append(x.to_datetime64())
            return r.choice(c)
        c = [x, x, x.to_timedelta64()]
        if x.value % 1000 == 0:
            c.append(x.to_pytimedelta())
        return r.choice(c)

    def unit_of(self, vec, r):
        """the same instants as a vector of a coarser datetime unit, where they are whole ones"""
        if not self.datelike or r.random() < 0.75 or vec.dtype.kind not in "mM":
            return vec
        ns = [k for k in vec.array.as_unit("ns").asi8.tolist() if k != np.iinfo("int64").min]
        c = [u for u, n in (("s", 10**9), ("ms", 10**6), ("us", 1000)) if all(k % n == 0 for k in ns)]
        if not c:
            return vec
        return (vec.dt if isinstance(vec, pd.Series) else vec).as_unit(r.choice(c))

    def delta(self, d, r=None):
        """difference of labels of d ticks"""
        if self.kind == "int":
            return int(d * self.unit)
        if self.kind == "float":
            x = float(d * self.unit)
            return int(x) if self.mixed and x == int(x) and self.mixr.random() < self.mixed else x
        td = pd.Timedelta(int(self.unit_q * d), unit="ns")
        if r is not None and td.value % 1000 == 0 and r.random() < 0.25:
            return r.choice([td.to_pytimedelta(), td.to_timedelta64()])
        return td

    def index(self, ticks):
        return self._mkindex([self.label(t) for t in ticks])

    def _mkindex(self, labels):
        if not labels:
            return pd.Index([], dtype="float64")
        if self.kind == "int":
            return pd.Index(labels, dtype="int64")
        if self.kind == "float":
            if self.mixed and all(x == int(x) for x in labels) and self.mixr.random() < self.mixed:
                return pd.Index(labels, dtype="int64")
            return pd.Index(labels, dtype="float64")
        if self.kind == "ts":
            return pd.DatetimeIndex(labels)
        return pd.TimedeltaIndex(labels)

    # -------------------------------------------------------------- decoding
    def tick(self, x):
        try:
            if self.kind in ("int", "float"):
                if isinstance(x, (pd.Timestamp, pd.Timedelta, np.datetime64, np.timedelta64)):
                    return BAD
                q = (Fraction(float(x)) - self.origin_q) / self.unit_q
            elif self.kind == "ts":
                if not isinstance(x, (pd.Timestamp, np.datetime64, datetime.datetime)):
                    return BAD
                q = Fraction(pd.Timestamp(x).as_unit("ns").value - self.origin_q) / self.unit_q
            else:
                if not isinstance(x, (pd.Timedelta, np.timedelta64, datetime.timedelta)):
                    return BAD
                q = Fraction(pd.Timedelta(x).as_unit("ns").value - self.origin_q) / self.unit_q
            if q.denominator != 1 or abs(q.numerator) > 10**8:
                return BAD
            return int(q)
        except Exception:
            return BAD

    def labels_ok(self, xs):
        """labels carry the domain's type and (for tz-aware domains) its timezone"""
        for x in xs:
            if self.kind in ("int", "float"):
                if isinstance(x, (bool, np.bool_)) or not isinstance(x, (int, float, np.integer, np.floating)):
                    return False
            elif self.kind == "ts":
                if not isinstance(x, pd.Timestamp):
                    return False
                if (x.tz is None) != (self.tz is None):
                    return False
                if self.tz is not None and str(x.tz) != str(self.label(0).tz):
                    return False
            elif not isinstance(x, pd.Timedelta):
                return False
        return True

    def length(self, x):
        """a length / length-valued quantity, in ticks (Fraction), or None"""
        if self.kind in ("int", "float"):
            if isinstance(x, (pd.Timedelta, np.timedelta64)):
                return None
            return Fraction(float(x)) / self.unit_q
        if x is pd.NaT or (isinstance(x, np.timedelta64) and np.isnat(x)):
            return None
        if isinstance(x, (pd.Timedelta, np.timedelta64, datetime.timedelta)):
            return Fraction(pd.Timedelta(x).as_unit("ns").value) / self.unit_q
        return None


DOMAINS = {
    d.name: d
    for d in [
        Domain("int", "int", 0, 1),
        Domain("int3", "int", -7, 3),
        Domain("float", "float", 0.0, 0.5),
        Domain("floatu", "float", 0.0, 1.0),
        Domain("fine", "float", 1.0, 2.0**-20),
        Domain("wide", "float", -1e7, 1048576.0),
        Domain("micro", "float", 3.0, 2.0**-44),
        Domain("giga", "float", 0.0, 2.0**40),
        Domain("ts", "ts", "2021-03-01", "1h"),
        Domain("tsd", "ts", "1969-12-25", "1D"),
        Domain("tsus", "ts", "2000-01-01 00:00:00.000000001", "1500ns"),
        Domain("tsmin", "ts", "2019-06-30 23:30", "7min"),
        Domain("tzsyd", "ts", "2021-04-03 09:00", "1h", tz="Australia/Sydney"),
        Domain("tznyc", "ts", "2021-03-14 04:30", "30min", tz="America/New_York"),
        Domain("tzfall", "ts", "2020-11-01 04:30", "30min", tz="America/New_York"),
        Domain("tzfix", "ts", "2022-12-31 18:00", "1h", tz=datetime.timezone(datetime.timedelta(hours=5, minutes=30))),
        Domain("tzutc", "ts", "2020-02-28", "6h", tz="UTC"),
        Domain("mixed", "float", 0.0, 1.0),
        Domain("halves", "float", 0.0, 0.5),
        Domain("td", "td", "0h", "1h"),
        Domain("tdneg", "td", "-3D", "1D"),
        Domain("tdns", "td", "1D 00:00:00.000000003", "700ns"),
    ]
}
DOMAINS["mixed"].mixed = 0.5
DOMAINS["halves"].mixed = 1.0
DOMAINS["halves"].halves = True
NUMERIC = ["int", "float", "int3", "floatu", "fine", "wide", "micro", "giga", "mixed", "halves", "halves"]
DATELIKE = ["ts", "tsd", "tsmin", "tzsyd", "tznyc", "tzfall", "tzfix", "tzutc", "td", "tdneg", "tdns", "tsus"]
