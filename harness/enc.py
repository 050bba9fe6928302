"""Encoding of what the real code returns into the specification's values."""
import copy
from fractions import Fraction
import math

import numpy as np
import pandas as pd

NAN = [0, 0]
LIM = 2**31 - 1
REL, ABS, ZERO = Fraction(2, 10**14), Fraction(2, 10**16), Fraction(1, 10**13)


def simplest(lo, hi):
    """the fraction of least denominator in [lo, hi], 0 < lo <= hi"""
    a = -((-lo.numerator) // lo.denominator)
    if a <= hi:
        return Fraction(a)
    k = lo.numerator // lo.denominator
    return k + 1 / simplest(1 / (hi - k), 1 / (lo - k))


def near(q):
    """q itself if it is representable for the specification as it stands (small dyadic values are exact), otherwise
    the simplest fraction a float computation of it may have been rounded from"""
    if q == 0 or q.denominator & (q.denominator - 1) == 0 and (q.denominator <= 2**26 or q.denominator <= 2**30 and abs(q.numerator) <= LIM):
        return q
    if q < 0:
        return -near(-q)
    if q <= ZERO:
        return Fraction(0)
    t = max(q * REL, ABS)
    return simplest(q - t, q + t)


def frac(q):
    if abs(q.numerator) > LIM or q.denominator > LIM:
        return [3, 0]
    return [q.numerator, q.denominator]


def rat(x):
    """a number -> <<n,d>>; NaN/NaT -> <<0,0>>; +-inf -> <<+-1,0>>; anything else -> <<4,0>>"""
    if isinstance(x, Fraction):
        return frac(near(x))
    if isinstance(x, np.ndarray) and x.ndim == 0:
        x = x.item()
    if x is pd.NaT or x is pd.NA:
        return NAN
    if isinstance(x, (bool, np.bool_)):
        return [int(x), 1]
    if isinstance(x, (int, np.integer)):
        return frac(Fraction(int(x)))
    if isinstance(x, (float, np.floating)):
        x = float(x)
        if math.isnan(x):
            return NAN
        if math.isinf(x):
            return [1, 0] if x > 0 else [-1, 0]
        return frac(near(Fraction(x)))
    return [4, 0]


def stat(x, scale=1.0, absol=0.0):
    """a computed statistic: <<n,d>> if the float is a small dyadic number, otherwise an interval <<n,d,n,d>> of rounding
    errors around it, within which the specification's exact value has to lie"""
    if isinstance(x, np.ndarray) and x.ndim == 0:
        x = x.item()
    if isinstance(x, Fraction):
        q = x
    elif isinstance(x, (float, np.floating)) and math.isfinite(x):
        q = Fraction(float(x))
    else:
        return rat(x)
    if abs(q) > LIM:
        return [3, 0]
    if q and q.denominator & (q.denominator - 1) == 0 and q.denominator <= 2**12:
        return [q.numerator, q.denominator]
    t = max(abs(q) * Fraction(1, 10**10), Fraction(scale) * Fraction(1, 10**11), Fraction(absol))

    def between(lo, hi):
        if lo <= 0 <= hi:
            return Fraction(0)
        return simplest(lo, hi) if lo > 0 else -simplest(-hi, -lo)

    if q == 0:
        return [0, 1]
    for _ in range(40):
        a, b = between(q - 2 * t, q - t), between(q + t, q + 2 * t)
        if max(abs(a.numerator), a.denominator, abs(b.numerator), b.denominator) <= LIM:
            return frac(a) + frac(b)
        t *= 3
    return [4, 0]


def statlen(dom, x, scale=1.0):
    """a computed length-valued statistic, in ticks"""
    if isinstance(x, (float, np.floating)) and math.isnan(x) or x is pd.NaT:
        return NAN
    try:
        q = dom.length(x)
    except (ValueError, OverflowError, TypeError):
        return [4, 0]
    return [4, 0] if q is None else stat(q, scale, dom.resolution * scale)


def ratlen(dom, x):
    """a length-valued quantity in ticks"""
    if isinstance(x, (float, np.floating)) and math.isnan(x):
        return NAN
    if x is pd.NaT:
        return NAN
    try:
        q = dom.length(x)
    except (ValueError, OverflowError, TypeError):
        return [4, 0]
    return [4, 0] if q is None else rat(q)


def peek(obj):
    """a deep copy for observation: observing must not materialise anything in the observed object"""
    return copy.deepcopy(obj)


def fn_of_series(dom, init, sv, closed):
    labels = list(sv.index)
    return {
        "c": closed if closed in ("left", "right") else "?",
        "i": rat(init),
        "p": [dom.tick(x) for x in labels],
        "v": [rat(x) for x in sv.tolist()],
        "z": dom.labels_ok(labels),
    }


def snapshot(dom, obj):
    """projected abstract state of a real object"""
    o = peek(obj)
    return fn_of_series(dom, o.initial_value, o.step_values, o.closed)
