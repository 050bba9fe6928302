-------------------------------- MODULE Stats --------------------------------
(***************************************************************************)
(* Statistics of a step function, by definition: length-weighted over the  *)
(* finite pieces on which it is defined.                                   *)
(***************************************************************************)
EXTENDS StepFn

\* finite defined pieces as a sequence of [len, val]
Pieces(f) ==
    LET n == Len(f.p)
        ks == SelectSeq([k \in 1 .. (IF n = 0 THEN 0 ELSE n - 1) |-> k], LAMBDA k : ~IsNaN(f.v[k]))
    IN [j \in 1 .. Len(ks) |-> [len |-> f.p[ks[j] + 1] - f.p[ks[j]], val |-> f.v[ks[j]]]]

RECURSIVE SumLen(_, _)
SumLen(ps, k) == IF k = 0 THEN 0 ELSE SumLen(ps, k - 1) + ps[k].len
Total(ps) == SumLen(ps, Len(ps))
Vals(ps) == { ps[k].val : k \in 1 .. Len(ps) }
LenOf(ps, x) == Total(SelectSeq(ps, LAMBDA q : q.val = x))
LenLe(ps, y) == Total(SelectSeq(ps, LAMBDA q : Le(q.val, y)))
LenLt(ps, y) == Total(SelectSeq(ps, LAMBDA q : Lt(q.val, y)))
SortedVals(S) == SetToSortSeq(S, Lt)

HasFinite(f) == Pieces(f) # <<>>

\* <<value, length>> pairs in increasing order of value
ValueSums(f) ==
    LET ps == Pieces(f)
        vs == SortedVals(Vals(ps))
    IN [k \in 1 .. Len(vs) |-> <<vs[k], LenOf(ps, vs[k])>>]
\* total length of the finite undefined pieces
LenNaN(f) ==
    LET n == Len(f.p)
        ks == SelectSeq([k \in 1 .. (IF n = 0 THEN 0 ELSE n - 1) |-> k], LAMBDA k : IsNaN(f.v[k]))
    IN Total([j \in 1 .. Len(ks) |-> [len |-> f.p[ks[j] + 1] - f.p[ks[j]]]])

SumW(ps, F(_)) == SumV([k \in 1 .. Len(ps) |-> Mul(Q(ps[k].len), F(ps[k].val))])
IntegralP(ps) == SumW(ps, LAMBDA x : x)
MeanP(ps) == IF ps = <<>> THEN NaN ELSE Div(IntegralP(ps), Q(Total(ps)))
VarP(ps) ==
    IF ps = <<>> THEN NaN
    ELSE LET m == MeanP(ps)
         IN Div(SumW(ps, LAMBDA x : Mul(Sub(x, m), Sub(x, m))), Q(Total(ps)))

Integral(f) == LET ps == Pieces(f) IN IF ps = <<>> THEN NaN ELSE IntegralP(ps)
Mean(f) == MeanP(Pieces(f))
Var(f) == VarP(Pieces(f))

\* ------------------------------------------------------------- distribution
EcdfR(f, y) == LET ps == Pieces(f) IN Norm(LenLe(ps, y), Total(ps))
EcdfL(f, y) == LET ps == Pieces(f) IN Norm(LenLt(ps, y), Total(ps))

\* x-fractile, x a rational in [0,1]: midpoint of the lower quantile
\* min{v : F(v) >= x} and the upper quantile min{v : F(v) > x} (max if none)
FractileP(ps, x) ==
    LET vs == SortedVals(Vals(ps))
        n == Len(vs)
        T == Total(ps)
        q == Mul(x, Q(T))
        loS == { k \in 1 .. n : Le(q, Q(LenLe(ps, vs[k]))) }
        hiS == { k \in 1 .. n : Lt(q, Q(LenLe(ps, vs[k]))) }
        mn(S) == CHOOSE k \in S : \A j \in S : k <= j
        lo == IF loS = {} THEN n ELSE mn(loS)
        hi == IF hiS = {} THEN n ELSE mn(hiS)
    IN Div(Add(vs[lo], vs[hi]), Q(2))
Fractile(f, x) == FractileP(Pieces(f), x)
Percentile(f, x) == Fractile(f, Div(x, Q(100)))
Median(f) == LET ps == Pieces(f) IN IF ps = <<>> THEN NaN ELSE FractileP(ps, <<1, 2>>)
Quantiles(f, q) == [k \in 1 .. q - 1 |-> Fractile(f, Norm(k, q))]
ModeSet(f) ==
    LET ps == Pieces(f)
    IN { x \in Vals(ps) : \A y \in Vals(ps) : LenOf(ps, y) <= LenOf(ps, x) }

\* histogram: bins is a sequence of <<lo, hi>>, side the closed side of a bin
InBin(x, b, side) ==
    IF side = "left" THEN Le(b[1], x) /\ Lt(x, b[2]) ELSE Lt(b[1], x) /\ Le(x, b[2])
HistSum(f, bins, side) ==
    LET ps == Pieces(f)
    IN [k \in 1 .. Len(bins) |-> Q(Total(SelectSeq(ps, LAMBDA q : InBin(q.val, bins[k], side))))]
HistStat(f, bins, side, stat) ==
    LET s == HistSum(f, bins, side)
        n == Len(bins)
        w(k) == Sub(bins[k][2], bins[k][1])
        T == Q(Total(Pieces(f)))
        A == SumV([k \in 1 .. n |-> Mul(s[k], w(k))])
    IN CASE stat = "sum" -> s
         [] stat = "frequency" -> [k \in 1 .. n |-> Div(s[k], w(k))]
         [] stat = "density" -> [k \in 1 .. n |-> Div(s[k], A)]
         [] stat = "probability" -> [k \in 1 .. n |-> Div(s[k], T)]
UnitBins(f, side) ==
    LET vs == SortedVals(Vals(Pieces(f)))
        lo == IF side = "left" THEN Floor(vs[1]) ELSE Ceil(vs[1]) - 1
        hi == IF side = "left" THEN Floor(vs[Len(vs)]) + 1 ELSE Ceil(vs[Len(vs)])
    IN [k \in 1 .. hi - lo |-> <<Q(lo + k - 1), Q(lo + k)>>]

\* ----------------------------------------------------------- values in range
\* set of values taken at defined points of the interval from a to b (optional
\* bounds) with endpoint closedness cl
ClosedL(cl) == cl \in {"left", "both"}
ClosedR(cl) == cl \in {"right", "both"}
ValuesInRange(f, a, b, cl) ==
    LET interior ==
            (IF Missing(a) THEN {f.i}
             ELSE IF Missing(b) \/ a[1] < b[1] THEN {LimR(f, a[1])} ELSE {})
            \cup { f.v[k] : k \in { j \in 1 .. Len(f.p) :
                                    (Missing(a) \/ a[1] < f.p[j]) /\ (Missing(b) \/ f.p[j] < b[1]) } }
        ends == (IF ~Missing(a) /\ ClosedL(cl) THEN {Eval(f, a[1])} ELSE {})
                \cup (IF ~Missing(b) /\ ClosedR(cl) THEN {Eval(f, b[1])} ELSE {})
    IN (interior \cup ends) \ {NaN}
MinSet(S) == IF S = {} THEN NaN ELSE CHOOSE x \in S : \A y \in S : Le(x, y)
MaxSet(S) == IF S = {} THEN NaN ELSE CHOOSE x \in S : \A y \in S : Le(y, x)

\* ------------------------------------------------------------------- slicing
\* statistic `name` of f restricted to the interval <<a, b>>, closedness cl
StatOn(f, name, a, b, cl) ==
    LET g == Clip(f, a, b)
    IN CASE name = "mean" -> Mean(g)
         [] name = "integral" -> Integral(g)
         [] name = "median" -> Median(g)
         [] name = "var" -> Var(g)
         [] name = "min" -> MinSet(ValuesInRange(f, a, b, cl))
         [] name = "max" -> MaxSet(ValuesInRange(f, a, b, cl))

\* f with the value x[k] on [b[k], b[k+1]) (right limits), f outside the span
Resample(f, b, x) ==
    Build(f.c, f.i, Pts(f) \cup { b[k] : k \in 1 .. Len(b) },
          LAMBDA t : LET k == CntLe(b, t, 0, Len(b))
                     IN IF k = 0 \/ k = Len(b) THEN LimR(f, t) ELSE x[k])

\* --------------------------------------------------- covariance / correlation
\* pieces of the common domain of f and g inside a finite window
CommonIn(f, g, a, b) ==
    LET p == Sorted({a, b} \cup { t \in Pts(f) \cup Pts(g) : a < t /\ t < b })
        ks == SelectSeq([k \in 1 .. Len(p) - 1 |-> k],
                        LAMBDA k : ~IsNaN(LimR(f, p[k])) /\ ~IsNaN(LimR(g, p[k])))
    IN [j \in 1 .. Len(ks) |-> [len |-> p[ks[j] + 1] - p[ks[j]],
                                x |-> LimR(f, p[ks[j]]), y |-> LimR(g, p[ks[j]])]]
\* ... inside a window with optional bounds, where the common domain is bounded
OpenEnded(f, g, lo, hi) ==
    \/ Missing(lo) /\ ~IsNaN(f.i) /\ ~IsNaN(g.i)
    \/ Missing(hi) /\ ~IsNaN(At(f, Len(f.p))) /\ ~IsNaN(At(g, Len(g.p)))
Common(f, g, lo, hi) ==
    LET S == Pts(f) \cup Pts(g) \cup (IF Missing(lo) THEN {} ELSE {lo[1]}) \cup (IF Missing(hi) THEN {} ELSE {hi[1]})
        a == IF Missing(lo) THEN CHOOSE x \in S : \A y \in S : x <= y ELSE lo[1]
        b == IF Missing(hi) THEN CHOOSE x \in S : \A y \in S : y <= x ELSE hi[1]
    IN IF S = {} \/ OpenEnded(f, g, lo, hi) THEN <<>> ELSE IF b <= a THEN <<>> ELSE CommonIn(f, g, a, b)
\* moments over an unbounded region or an empty window are not defined by the property; those over no piece are undefined (NaN)
NoMoments(f, g, lo, hi) == OpenEnded(f, g, lo, hi) \/ (~Missing(lo) /\ ~Missing(hi) /\ hi[1] <= lo[1])
WMean(cs, F(_)) ==
    IF cs = <<>> THEN NaN
    ELSE Div(SumV([k \in 1 .. Len(cs) |-> Mul(Q(cs[k].len), F(cs[k]))]), Q(Total(cs)))
CovC(cs) ==
    Sub(WMean(cs, LAMBDA q : Mul(q.x, q.y)),
        Mul(WMean(cs, LAMBDA q : q.x), WMean(cs, LAMBDA q : q.y)))
VarX(cs) == Sub(WMean(cs, LAMBDA q : Mul(q.x, q.x)), Mul(WMean(cs, LAMBDA q : q.x), WMean(cs, LAMBDA q : q.x)))
VarY(cs) == Sub(WMean(cs, LAMBDA q : Mul(q.y, q.y)), Mul(WMean(cs, LAMBDA q : q.y), WMean(cs, LAMBDA q : q.y)))
\* lagged: g replaced by g shifted by -lag, upper end reduced by lag for 'pre'
LagG(g, lag) == IF lag = 0 THEN g ELSE Shift(g, -lag)
LagHi(b, lag, clip) == IF clip = "pre" /\ ~Missing(b) THEN <<b[1] - lag>> ELSE b
Cov(f, g, a, b, lag, clip) == CovC(Common(f, LagG(g, lag), a, LagHi(b, lag, clip)))
\* correlation as <<sign, square>> (NaN square when a deviation is zero)
Sign(x) == IF IsNaN(x) THEN 0 ELSE IF x[1] > 0 THEN 1 ELSE IF x[1] < 0 THEN -1 ELSE 0
CorrC(cs) ==
    LET cv == CovC(cs)
        vx == VarX(cs)
        vy == VarY(cs)
    IN IF cs = <<>> \/ vx = Zero \/ vy = Zero THEN <<0, NaN>>
       ELSE <<Sign(cv), Mul(Div(cv, vx), Div(cv, vy))>>
Corr(f, g, a, b, lag, clip) == CorrC(Common(f, LagG(g, lag), a, LagHi(b, lag, clip)))

\* -------------------------------------------------------------- rolling mean
\* knots: every x at which a window edge x+l or x+r meets a step point of f
\* restricted to the window (a, b), kept inside [a - l, b - r]
RollKnots(f, l, r, a, b) ==
    LET S == Pts(Clip(f, a, b))
        all == { t - l : t \in S } \cup { t - r : t \in S }
    IN Sorted({ x \in all : (Missing(a) \/ a[1] - l <= x) /\ (Missing(b) \/ x <= b[1] - r) })
RollMean(f, l, r, a, b, x) == Mean(Clip(Clip(f, a, b), <<x + l>>, <<x + r>>))
=============================================================================
