-------------------------------- MODULE Laws --------------------------------
(***************************************************************************)
(* Identities of pointwise algebra, as pairs of functions which have to be *)
(* the same.  x, y, z: functions; k: a value, also as constant function;   *)
(* d: a translation; lo, hi: optional bounds.                              *)
(* harness/laws.py has the same identities written with the operators of   *)
(* the library.  That they hold for the operators of StepFn is checked by  *)
(* Model.tla on enumerated programs (part "laws" of Gen.tla).              *)
(***************************************************************************)
EXTENDS StepFn

LB(o, x, y) == BinFn(o, x, y)
LU(o, x) == UnFn(o, x)
LC(x, k) == Const(x.c, k)
LZero(x) == Mask(LC(x, Zero), LU("isna", x))
LAgg2(n, x, y) == AggFns(n, <<x, y>>)
LAgg3(n, x, y, z) == AggFns(n, <<x, y, z>>)
LTwo == Q(2)

LComm(o, x, y, k) == << <<LB(o, x, y), LB(o, y, x)>>, <<LB(o, x, LC(x, k)), LB(o, LC(x, k), x)>> >>
LAssoc(o, x, y, z) == << <<LB(o, LB(o, x, y), z), LB(o, x, LB(o, y, z))>> >>

LawPairs(n, x, y, z, k, d, lo, hi) ==
    CASE n = "comm_add" -> LComm("add", x, y, k)
      [] n = "comm_mul" -> LComm("mul", x, y, k)
      [] n = "comm_and" -> LComm("and", x, y, k)
      [] n = "comm_or" -> LComm("or", x, y, k)
      [] n = "comm_xor" -> LComm("xor", x, y, k)
      [] n = "comm_eq" -> LComm("eq", x, y, k) \o LComm("ne", x, y, k)
      [] n = "assoc_add" -> LAssoc("add", x, y, z) \o LAssoc("add", x, y, LC(x, k))
      [] n = "assoc_mul" -> LAssoc("mul", x, y, z)
      [] n = "assoc_and" -> LAssoc("and", x, y, z)
      [] n = "assoc_or" -> LAssoc("or", x, y, z)
      [] n = "assoc_xor" -> LAssoc("xor", x, y, z)
      [] n = "dist_mul" -> << <<LB("mul", x, LB("add", y, z)), LB("add", LB("mul", x, y), LB("mul", x, z))>>,
                              <<LB("mul", LC(y, k), LB("sub", y, z)), LB("sub", LB("mul", LC(y, k), y), LB("mul", LC(z, k), z))>> >>
      [] n = "dist_and" -> << <<LB("and", x, LB("or", y, z)), LB("or", LB("and", x, y), LB("and", x, z))>> >>
      [] n = "dist_or" -> << <<LB("or", x, LB("and", y, z)), LB("and", LB("or", x, y), LB("or", x, z))>> >>
      [] n = "demorgan" -> << <<LU("inv", LB("and", x, y)), LB("or", LU("inv", x), LU("inv", y))>>,
                              <<LU("inv", LB("or", x, y)), LB("and", LU("inv", x), LU("inv", y))>> >>
      [] n = "selfsub" -> << <<LB("sub", x, x), LZero(x)>>, <<LB("sub", x, x), LB("mul", x, LC(x, Zero))>>,
                             <<LB("add", x, LU("neg", x)), LZero(x)>>, <<LU("isna", LB("sub", x, x)), LU("isna", x)>> >>
      [] n = "subadd" -> << <<LB("sub", LB("add", x, y), y), Mask(x, LU("isna", y))>>,
                            <<LB("sub", x, y), LB("add", x, LU("neg", y))>>, <<LU("neg", LB("sub", x, y)), LB("sub", y, x)>> >>
      [] n = "neg" -> << <<LU("neg", LU("neg", x)), x>>, <<LU("neg", x), LB("sub", LC(x, Zero), x)>>, <<LU("neg", x), LB("mul", x, LC(x, Q(-1)))>>,
                         <<LB("sub", x, LC(x, Zero)), x>>, <<LB("mul", x, LC(x, One)), x>>, <<LB("div", x, LC(x, One)), x>> >>
      [] n = "notnot" -> << <<LU("inv", LU("inv", x)), LU("bool", x)>>, <<LU("inv", x), LB("eq", x, LC(x, Zero))>>, <<LU("bool", x), LB("ne", x, LC(x, Zero))>> >>
      [] n = "dual" -> << <<Mask(x, y), Where(x, LU("inv", y))>>, <<Where(x, y), Mask(x, LU("inv", y))>> >>
      [] n = "duality_na" -> << <<LU("isna", x), LU("inv", LU("notna", x))>>, <<LU("notna", x), FillScalar(LB("eq", x, x), Zero)>> >>
      [] n = "clipwhere" -> << <<Clip(x, lo, hi), WhereTup(x, lo, hi)>>, <<Clip(Clip(x, lo, hi), lo, hi), Clip(x, lo, hi)>> >>
      [] n = "clipmask" -> << <<FillFn(MaskTup(x, lo, hi), Clip(x, lo, hi)), x>> >>
      [] n = "twice" -> << <<LB("add", x, x), LB("mul", x, LC(x, LTwo))>>, <<LB("sub", LB("add", LB("add", x, x), x), x), LB("mul", LC(x, LTwo), x)>> >>
      [] n = "halve" -> << <<LB("div", LB("mul", x, LC(x, LTwo)), LC(x, LTwo)), x>>,
                           <<LB("add", LB("div", x, LC(x, LTwo)), LB("div", x, LC(x, LTwo))), x>> >>
      [] n = "rel_flip" -> << <<LB("lt", x, y), LB("gt", y, x)>>, <<LB("le", x, y), LB("ge", y, x)>>,
                              <<LB("lt", x, LC(x, k)), LB("gt", LC(x, k), x)>>, <<LB("le", x, LC(x, k)), LB("ge", LC(x, k), x)>> >>
      [] n = "rel_compl" -> << <<LU("inv", LB("le", x, y)), LB("gt", x, y)>>, <<LU("inv", LB("lt", x, y)), LB("ge", x, y)>>,
                               <<LU("inv", LB("eq", x, y)), LB("ne", x, y)>>, <<LU("inv", LB("lt", x, LC(x, k))), LB("ge", x, LC(x, k))>> >>
      [] n = "rel_split" -> << <<LB("le", x, y), LB("or", LB("lt", x, y), LB("eq", x, y))>>, <<LB("ne", x, y), LB("xor", LB("lt", x, y), LB("gt", x, y))>> >>
      [] n = "rel_diff" -> << <<LB("lt", x, y), LB("lt", LB("sub", x, y), LC(x, Zero))>>, <<LB("eq", x, y), LU("inv", LB("sub", x, y))>> >>
      [] n = "xor_ne" -> << <<LB("xor", x, y), LB("ne", LU("bool", x), LU("bool", y))>> >>
      [] n = "or_max" -> << <<LB("or", x, y), LAgg2("max", LU("bool", x), LU("bool", y))>>, <<LB("and", x, y), LB("mul", LU("bool", x), LU("bool", y))>> >>
      [] n = "shift_inv" -> << <<Shift(Shift(x, d), -d), x>>, <<LB("add", Shift(x, d), Shift(y, d)), Shift(LB("add", x, y), d)>> >>
      [] n = "diff_def" -> << <<Diff(x, d), LB("sub", x, Shift(x, d))>> >>
      [] n = "fill_idem" -> << <<Mask(FillScalar(x, k), LU("isna", x)), x>>, <<FillFn(FillFn(x, y), y), FillFn(x, y)>>, <<FillFn(x, x), x>> >>
      [] n = "fill_const" -> << <<FillScalar(x, k), FillFn(x, LC(x, k))>> >>
      [] n = "sum_fold" -> << <<LAgg3("sum", x, y, z), LB("add", LB("add", x, y), z)>>, <<LAgg2("sum", x, x), LB("mul", LC(x, LTwo), x)>> >>
      [] n = "maxmin" -> << <<LB("add", LAgg2("max", x, y), LAgg2("min", x, y)), LB("add", x, y)>>,
                            <<LAgg2("max", x, y), LU("neg", LAgg2("min", LU("neg", x), LU("neg", y)))>> >>
      [] n = "logic_fold" -> << <<LAgg3("logical_or", x, y, z), LB("or", LB("or", x, y), z)>>, <<LAgg3("logical_and", x, y, z), LB("and", LB("and", x, y), z)>> >>
      [] n = "refl" -> << <<x, x>>, <<Canon(x), x>>, <<Shift(x, d), Shift(Canon(x), d)>> >>
      [] n = "scalar" -> << <<LB("add", LC(x, k), LC(x, Zero)), LC(x, k)>>, <<LB("add", LB("mul", FillScalar(x, Zero), LC(x, Zero)), LC(x, k)), LC(x, k)>>,
                            <<LB("or", LU("isna", x), LU("notna", x)), LC(x, One)>> >>

LawHolds(n, x, y, z, k, d, lo, hi) ==
    \A j \in 1 .. Len(LawPairs(n, x, y, z, k, d, lo, hi)) :
        LET w == LawPairs(n, x, y, z, k, d, lo, hi)[j] IN SameFn(w[1], w[2])
=============================================================================
