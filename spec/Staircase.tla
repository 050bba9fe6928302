------------------------------ MODULE Staircase ------------------------------
(***************************************************************************)
(* The state machine.  State: a heap of step-function objects.  One public *)
(* call of the library is one step; `layer' is the only step that changes  *)
(* an existing object, every other function-valued call appends a new one, *)
(* queries change nothing.                                                 *)
(*                                                                         *)
(* A call is a record e with field op and its arguments; Outcome(h, e) is  *)
(* what the specification prescribes for it in heap h:                     *)
(*   [k |-> "new", f |-> F]        a new object denoting F                 *)
(*   [k |-> "news", fs |-> <<..>>] several new objects                     *)
(*   [k |-> "mut", id, f |-> F]    object id now denotes F; returned itself*)
(*   [k |-> "err"]                 ClosedMismatchError                     *)
(*   [k |-> "val", x |-> ...]      the answer of a query                   *)
(*   [k |-> "in", s |-> S]         an answer out of the set S              *)
(*   [k |-> "any"]                 not constrained (outside the properties)*)
(***************************************************************************)
EXTENDS Stats

\* operand: <<"o", id>> or <<"s", value>>; a scalar combines with either side
Opd(h, o, c) == IF o[1] = "o" THEN h[o[2]] ELSE Const(c, o[2])
OSide(h, o, d) == IF o[1] = "o" THEN h[o[2]].c ELSE d
Left(h, e) == Opd(h, e.a, OSide(h, e.b, "left"))
Right(h, e) == Opd(h, e.b, OSide(h, e.a, "left"))

New(f) == [k |-> "new", f |-> f]
Err == [k |-> "err"]
Val(x) == [k |-> "val", x |-> x]
Free == [k |-> "any"]

NewIf(bad, f) == IF bad THEN Err ELSE New(f)

Fns(h, ids) == [k \in 1 .. Len(ids) |-> h[ids[k]]]

\* finite window test
Finite(e) == ~Missing(e.lo) /\ ~Missing(e.hi)

\* integrals are lengths (Timedeltas) on datetime-like domains, representable up to lim ticks
Representable(ps, lim) == Le(SumW(ps, LAMBDA x : <<Abs(x[1]), x[2]>>), Q(lim))
StatOf(f, name, lim) ==
    LET ps == Pieces(f)
    IN CASE name = "min" -> Val(MinSet(ValuesInRange(f, <<>>, <<>>, "both")))
         [] name = "max" -> Val(MaxSet(ValuesInRange(f, <<>>, <<>>, "both")))
         [] ps = <<>> -> Free
         [] name = "integral" -> IF Representable(ps, lim) THEN Val(IntegralP(ps)) ELSE Free
         [] name = "mean" -> Val(MeanP(ps))
         [] name \in {"var", "std"} -> Val(VarP(ps))       \* std is logged squared
         [] name = "median" -> Val(FractileP(ps, <<1, 2>>))
         [] name = "mode" -> [k |-> "in", s |-> ModeSet(f)]

Describe(f, qs) ==
    LET ps == Pieces(f)
        all == ValuesInRange(f, <<>>, <<>>, "both")
    IN IF ps = <<>> THEN Free
       ELSE Val(<<Q(Cardinality(Vals(ps))), MeanP(ps), VarP(ps), MinSet(all)>>
                \o [k \in 1 .. Len(qs) |-> FractileP(ps, Div(qs[k], Q(100)))] \o <<MaxSet(all)>>)

Matrix(fs, F(_, _)) == [j \in 1 .. Len(fs) |-> [k \in 1 .. Len(fs) |-> F(fs[j], fs[k])]]

\* some pair has no common domain, or an unbounded one
SomeUnbounded(fs, e) == \E j, k \in 1 .. Len(fs) : NoMoments(fs[j], fs[k], e.lo, e.hi)
SomeOpen(fs, e) == \E j, k \in 1 .. Len(fs) : Common(fs[j], fs[k], e.lo, e.hi) = <<>>

ConstrOps == {"new", "fromvals", "copy"}
FnOps == {"un", "bin", "clip", "mask", "where", "masktup", "wheretup", "fills", "fillm", "fillf",
          "shift", "diff", "agg", "resample", "slices", "arrbin", "arrneg", "resampleown"}

Outcome(h, e) ==
  CASE e.op = "new" -> New(LayerAll(Const(e.c, e.i), e.ts))
    [] e.op = "fromvals" -> New(Canon(Fn(e.c, e.i, e.p, e.v)))
    [] e.op = "layer" -> [k |-> "mut", id |-> e.a[2], f |-> LayerAll(h[e.a[2]], e.ts)]
    [] e.op = "copy" -> New(h[e.a[2]])
    [] e.op = "un" -> New(UnFn(e.f, h[e.a[2]]))
    [] e.op = "bin" -> LET f == Left(h, e) g == Right(h, e) IN NewIf(Mismatch(f, g), BinFn(e.f, f, g))
    [] e.op = "clip" -> New(Clip(h[e.a[2]], e.lo, e.hi))
    [] e.op = "mask" -> LET f == h[e.a[2]] g == h[e.b[2]] IN NewIf(Mismatch(f, g), Mask(f, g))
    [] e.op = "where" -> LET f == h[e.a[2]] g == h[e.b[2]] IN NewIf(Mismatch(f, g), Where(f, g))
    [] e.op = "masktup" -> New(MaskTup(h[e.a[2]], e.lo, e.hi))
    [] e.op = "wheretup" -> New(WhereTup(h[e.a[2]], e.lo, e.hi))
    [] e.op = "fills" -> New(FillScalar(h[e.a[2]], e.x))
    [] e.op = "fillm" -> New(FillMethod(h[e.a[2]], e.f))
    [] e.op = "fillf" -> LET f == h[e.a[2]] g == h[e.b[2]] IN NewIf(Mismatch(f, g), FillFn(f, g))
    [] e.op = "shift" -> New(Shift(h[e.a[2]], e.d))
    [] e.op = "diff" -> New(Diff(h[e.a[2]], e.d))
    [] e.op = "agg" -> LET fs == Fns(h, e.ids) IN NewIf(AggMismatch(fs), AggFns(e.f, fs))
    [] e.op = "slices" -> [k |-> "news", fs |-> [j \in 1 .. Len(e.ivs) |->
                               Clip(h[e.a[2]], <<e.ivs[j][1]>>, <<e.ivs[j][2]>>)]]
    [] e.op = "resample" ->
         LET f == h[e.a[2]]
             n == Len(e.b) - 1
             x == [j \in 1 .. n |->
                     IF e.f = "mode"
                     THEN LET S == ModeSet(Clip(f, <<e.b[j]>>, <<e.b[j + 1]>>))
                          IN IF Cardinality(S) = 1 THEN CHOOSE y \in S : TRUE ELSE NaN
                     ELSE StatOn(f, e.f, <<e.b[j]>>, <<e.b[j + 1]>>, e.cl)]
         IN IF SomeNaN(x) THEN Free ELSE New(Resample(f, e.b, x))
    [] e.op = "arrbin" ->
         LET fs == Fns(h, e.ids)
             gs == IF e.b[1] = "l" THEN Fns(h, e.b[2])
                   ELSE [j \in 1 .. Len(fs) |-> Opd(h, e.b, fs[j].c)]
         IN IF \E j \in 1 .. Len(fs) : Mismatch(fs[j], gs[j]) THEN Err
            ELSE [k |-> "news", fs |-> [j \in 1 .. Len(fs) |->
                      IF e.rev THEN BinFn(e.f, gs[j], fs[j]) ELSE BinFn(e.f, fs[j], gs[j])]]
    [] e.op = "arrneg" -> [k |-> "news", fs |-> [j \in 1 .. Len(e.ids) |-> UnFn("neg", h[e.ids[j]])]]
    \* ------------------------------------------------------------- queries
    [] e.op \in {"touch", "poke"} -> [k |-> "quiet"]
    [] e.op = "limit" -> Val([j \in 1 .. Len(e.xs) |-> Lim(h[e.a[2]], e.xs[j], e.side)])
    [] e.op = "sample" -> Val([j \in 1 .. Len(e.xs) |-> Eval(h[e.a[2]], e.xs[j])])
    [] e.op = "views" -> LET f == h[e.a[2]]
                         IN Val([n |-> Len(f.p), p |-> f.p, v |-> f.v, i |-> f.i,
                                 fs |-> f.p, fe |-> f.p, fv |-> <<f.i>> \o f.v,
                                 cp |-> f.p,
                                 cs |-> IF EverywhereDefined(f)
                                        THEN [j \in 1 .. Len(f.p) |-> Sub(f.v[j], At(f, j - 1))]
                                        ELSE <<>>])
    [] e.op = "ident" -> LET f == Left(h, e) g == Right(h, e)
                         IN IF Mismatch(f, g) THEN Free ELSE Val(SameFn(f, g))
    [] e.op = "law" -> IF AggMismatch(Fns(h, e.ids)) THEN Free ELSE Val(TRUE)
    [] e.op = "truth" -> Val(SameFn(h[e.a[2]], Const("left", One)))
    [] e.op = "stat" -> StatOf(h[e.a[2]], e.f, e.lim)
    [] e.op = "aggstat" ->
         LET f == h[e.a[2]] IN
         IF e.f \in {"min", "max"}
         THEN LET S == ValuesInRange(f, e.lo, e.hi, IF e.cl = "" THEN f.c ELSE e.cl)
              IN IF S = {} THEN Free ELSE Val(IF e.f = "min" THEN MinSet(S) ELSE MaxSet(S))
         ELSE StatOf(Clip(f, e.lo, e.hi), e.f, e.lim)
    [] e.op = "vsums" -> IF HasFinite(h[e.a[2]]) THEN Val(ValueSums(h[e.a[2]])) ELSE Free
    [] e.op = "vsumsna" -> IF HasFinite(h[e.a[2]])
                           THEN Val(<<ValueSums(h[e.a[2]]), LenNaN(h[e.a[2]])>>) ELSE Free
    [] e.op = "ecdf" -> LET f == h[e.a[2]] IN
                        IF ~HasFinite(f) THEN Free
                        ELSE Val([j \in 1 .. Len(e.ys) |->
                                   IF e.side = "left" THEN EcdfL(f, e.ys[j]) ELSE EcdfR(f, e.ys[j])])
    [] e.op = "pct" -> LET f == h[e.a[2]] IN
                       IF ~HasFinite(f) THEN Free ELSE Val([j \in 1 .. Len(e.qs) |-> Percentile(f, e.qs[j])])
    [] e.op = "frac" -> LET f == h[e.a[2]] IN
                        IF ~HasFinite(f) THEN Free ELSE Val([j \in 1 .. Len(e.qs) |-> Fractile(f, e.qs[j])])
    [] e.op = "quant" -> LET f == h[e.a[2]] IN IF ~HasFinite(f) THEN Free ELSE Val(Quantiles(f, e.q))
    [] e.op = "hist" -> LET f == h[e.a[2]] IN
                        IF ~HasFinite(f) THEN Free
                        ELSE IF e.bins = <<>>
                        THEN LET bs == UnitBins(f, e.side) IN Val([b |-> bs, x |-> HistStat(f, bs, e.side, e.stat)])
                        ELSE Val([b |-> e.bins, x |-> HistStat(f, e.bins, e.side, e.stat)])
    [] e.op = "describe" -> LET f == h[e.a[2]] IN
                            Describe(IF Missing(e.lo) /\ Missing(e.hi) THEN f ELSE Clip(f, e.lo, e.hi), e.qs)
    [] e.op = "vir" -> LET f == h[e.a[2]] IN
                       Val(SortedVals(ValuesInRange(f, e.lo, e.hi, IF e.cl = "" THEN f.c ELSE e.cl)))
    [] e.op = "slstat" -> LET f == h[e.a[2]] IN
                          IF e.f \in {"mean", "integral"}
                             /\ \E j \in 1 .. Len(e.ivs) :
                                  ~Representable(Pieces(Clip(f, <<e.ivs[j][1]>>, <<e.ivs[j][2]>>)), e.lim)
                          THEN Free
                          ELSE Val([j \in 1 .. Len(e.ivs) |->
                                StatOn(f, e.f, <<e.ivs[j][1]>>, <<e.ivs[j][2]>>, e.cl)])
    [] e.op = "slmode" -> LET f == h[e.a[2]] IN
                          [k |-> "ins", ss |-> [j \in 1 .. Len(e.ivs) |->
                                ModeSet(Clip(f, <<e.ivs[j][1]>>, <<e.ivs[j][2]>>))]]
    [] e.op = "slhist" -> LET f == h[e.a[2]] IN
                          Val([j \in 1 .. Len(e.ivs) |->
                                HistStat(Clip(f, <<e.ivs[j][1]>>, <<e.ivs[j][2]>>), e.bins, e.side, e.stat)])
    [] e.op = "cov" -> LET f == h[e.a[2]] g == h[e.b[2]] IN
                       IF Mismatch(f, g) THEN Err
                       ELSE IF NoMoments(f, LagG(g, e.d), e.lo, LagHi(e.hi, e.d, e.clip)) THEN Free
                       ELSE Val(Cov(f, g, e.lo, e.hi, e.d, e.clip))
    [] e.op = "corr" -> LET f == h[e.a[2]] g == h[e.b[2]] IN
                        IF Mismatch(f, g) THEN Err
                        ELSE IF Common(f, LagG(g, e.d), e.lo, LagHi(e.hi, e.d, e.clip)) = <<>> THEN Free    \* deviations over nothing
                        ELSE Val(Corr(f, g, e.lo, e.hi, e.d, e.clip))
    [] e.op = "covm" -> LET fs == Fns(h, e.ids) IN
                        IF AggMismatch(fs) THEN Err
                        ELSE IF SomeUnbounded(fs, e) THEN Free
                        ELSE Val(Matrix(fs, LAMBDA f, g : Cov(f, g, e.lo, e.hi, 0, "pre")))
    [] e.op = "corrm" -> LET fs == Fns(h, e.ids) IN
                         IF AggMismatch(fs) THEN Err
                         ELSE IF SomeOpen(fs, e) THEN Free
                         ELSE Val(Matrix(fs, LAMBDA f, g : Corr(f, g, e.lo, e.hi, 0, "pre")))
    [] e.op = "table" -> LET fs == Fns(h, e.ids) IN
                         Val([j \in 1 .. Len(fs) |-> [k \in 1 .. Len(e.xs) |->
                               IF e.side = "" THEN Eval(fs[j], e.xs[k]) ELSE Lim(fs[j], e.xs[k], e.side)]])
    [] e.op = "roll" -> LET f == h[e.a[2]]
                            xs == RollKnots(f, e.l, e.r, e.lo, e.hi)
                        IN IF Clip(f, e.lo, e.hi).p = <<>> THEN Free
                           ELSE Val([x |-> xs, y |-> [j \in 1 .. Len(xs) |->
                                      RollMean(f, e.l, e.r, e.lo, e.hi, xs[j])]])

\* the heap after a call with outcome r
After(h, r) ==
    CASE r.k = "new" -> Append(h, r.f)
      [] r.k = "news" -> h \o r.fs
      [] r.k = "mut" -> [h EXCEPT ![r.id] = r.f]
      [] OTHER -> h
=============================================================================
