"""Identities of pointwise algebra, each as pairs of results the library has to find identical.

x, y, z step functions; c a scalar; d a translation; lo, hi optional bounds.  That the identities hold for the
specification's operators is model checked (part "laws" of spec/Gen.tla, checked by Props.tla); here the real library computes both sides."""
import operator as o

import staircase as sc


def zero(f):
    """the zero function on the domain of f, by another route"""
    return sc.Stairs(closed=f.closed).mask(f.isna())


def mk(c):
    return lambda f: sc.Stairs(initial_value=c, closed=f.closed)


LAWS = {
    "comm_add": lambda x, y, z, c, d, lo, hi: [(x + y, y + x), (x + c, c + x)],
    "comm_mul": lambda x, y, z, c, d, lo, hi: [(x * y, y * x), (x * c, c * x)],
    "comm_and": lambda x, y, z, c, d, lo, hi: [(x & y, y & x), (x & c, c & x)],
    "comm_or": lambda x, y, z, c, d, lo, hi: [(x | y, y | x), (x | c, c | x)],
    "comm_xor": lambda x, y, z, c, d, lo, hi: [(x ^ y, y ^ x), (x ^ c, c ^ x)],
    "comm_eq": lambda x, y, z, c, d, lo, hi: [(x == y, y == x), (x != y, y != x), (x == c, c == x), (x != c, c != x)],
    "assoc_add": lambda x, y, z, c, d, lo, hi: [((x + y) + z, x + (y + z)), ((x + y) + c, x + (y + c))],
    "assoc_mul": lambda x, y, z, c, d, lo, hi: [((x * y) * z, x * (y * z))],
    "assoc_and": lambda x, y, z, c, d, lo, hi: [((x & y) & z, x & (y & z))],
    "assoc_or": lambda x, y, z, c, d, lo, hi: [((x | y) | z, x | (y | z))],
    "assoc_xor": lambda x, y, z, c, d, lo, hi: [((x ^ y) ^ z, x ^ (y ^ z))],
    "dist_mul": lambda x, y, z, c, d, lo, hi: [(x * (y + z), x * y + x * z), (c * (y - z), c * y - c * z)],
    "dist_and": lambda x, y, z, c, d, lo, hi: [(x & (y | z), (x & y) | (x & z))],
    "dist_or": lambda x, y, z, c, d, lo, hi: [(x | (y & z), (x | y) & (x | z))],
    "demorgan": lambda x, y, z, c, d, lo, hi: [(~(x & y), ~x | ~y), (~(x | y), ~x & ~y)],
    "selfsub": lambda x, y, z, c, d, lo, hi: [(x - x, zero(x)), (x - x, x * 0), (x + -x, zero(x)), ((x - x).isna(), x.isna())],
    "subadd": lambda x, y, z, c, d, lo, hi: [((x + y) - y, x.mask(y.isna())), (x - y, x + -y), (-(x - y), y - x)],
    "neg": lambda x, y, z, c, d, lo, hi: [(-(-x), x), (-x, 0 - x), (-x, x * -1), (x - 0, x), (x * 1, x), (x / 1, x)],
    "notnot": lambda x, y, z, c, d, lo, hi: [(~~x, x.make_boolean()), (~x, x == 0), (x.make_boolean(), x != 0)],
    "dual": lambda x, y, z, c, d, lo, hi: [(x.mask(y), x.where(~y)), (x.where(y), x.mask(~y))],
    "duality_na": lambda x, y, z, c, d, lo, hi: [(x.isna(), ~x.notna()), (x.notna(), (x == x).fillna(0))],
    "clipwhere": lambda x, y, z, c, d, lo, hi: [(x.clip(lo, hi), x.where((lo, hi))), (x.clip(lo, hi).clip(lo, hi), x.clip(lo, hi))],
    "clipmask": lambda x, y, z, c, d, lo, hi: [(x.mask((lo, hi)).fillna(x.clip(lo, hi)), x)],
    "twice": lambda x, y, z, c, d, lo, hi: [(x + x, x * 2), (x + x + x - x, 2 * x)],
    "halve": lambda x, y, z, c, d, lo, hi: [((x * 2) / 2, x), (x / 2 + x / 2, x)],
    "rel_flip": lambda x, y, z, c, d, lo, hi: [(x < y, y > x), (x <= y, y >= x), (x < c, c > x), (x <= c, c >= x)],
    "rel_compl": lambda x, y, z, c, d, lo, hi: [(~(x <= y), x > y), (~(x < y), x >= y), (~(x == y), x != y), (~(x < c), x >= c)],
    "rel_split": lambda x, y, z, c, d, lo, hi: [(x <= y, (x < y) | (x == y)), (x != y, (x < y) ^ (x > y))],
    "rel_diff": lambda x, y, z, c, d, lo, hi: [(x < y, (x - y) < 0), (x == y, ~(x - y))],
    "xor_ne": lambda x, y, z, c, d, lo, hi: [(x ^ y, x.make_boolean() != y.make_boolean())],
    "or_max": lambda x, y, z, c, d, lo, hi: [(x | y, sc.max([x.make_boolean(), y.make_boolean()])), (x & y, x.make_boolean() * y.make_boolean())],
    "shift_inv": lambda x, y, z, c, d, lo, hi: [(x.shift(d).shift(-d), x), (x.shift(d) + y.shift(d), (x + y).shift(d))],
    "diff_def": lambda x, y, z, c, d, lo, hi: [(x.diff(d), x - x.shift(d))],
    "fill_idem": lambda x, y, z, c, d, lo, hi: [(x.fillna(c).mask(x.isna()), x), (x.fillna(y).fillna(y), x.fillna(y)), (x.fillna(x), x)],
    "fill_const": lambda x, y, z, c, d, lo, hi: [(x.fillna(c), x.fillna(mk(c)(x)))],
    "sum_fold": lambda x, y, z, c, d, lo, hi: [(sc.sum([x, y, z]), x + y + z), (sc.sum([x, x]), 2 * x)],
    "maxmin": lambda x, y, z, c, d, lo, hi: [(sc.max([x, y]) + sc.min([x, y]), x + y), (sc.max([x, y]), -sc.min([-x, -y]))],
    "logic_fold": lambda x, y, z, c, d, lo, hi: [(sc.logical_or([x, y, z]), x | y | z), (sc.logical_and([x, y, z]), x & y & z)],
    "refl": lambda x, y, z, c, d, lo, hi: [(x, x), (x.copy(), x), (x.shift(d), x.copy().shift(d))],
    "scalar": lambda x, y, z, c, d, lo, hi: [(mk(c)(x), c), (mk(c)(x) + 0, c), (x.fillna(0) * 0 + c, c), (x.isna() | x.notna(), 1)],
}
NOMUL = [k for k in LAWS if k not in ("assoc_mul", "dist_mul", "comm_mul")]

# the identities which follow from one property alone (all of them belong to C12)
OF = {
    "C01": ["comm_add", "comm_mul", "assoc_add", "assoc_mul", "dist_mul", "selfsub", "subadd", "neg", "twice", "halve"],
    "C04": ["comm_eq", "rel_flip", "rel_compl", "rel_split", "rel_diff"],
    "C05": ["comm_and", "comm_or", "comm_xor", "assoc_and", "assoc_or", "assoc_xor", "dist_and", "dist_or", "demorgan", "notnot", "xor_ne", "or_max"],
    "C06": ["dual", "duality_na", "clipwhere", "clipmask"],
    "C07": ["fill_idem", "fill_const"],
    "C18": ["sum_fold", "maxmin", "logic_fold"],
    "C20": ["shift_inv", "diff_def"],
    "C12": list(LAWS),
    "C16": list(LAWS),
}
