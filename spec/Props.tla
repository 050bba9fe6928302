-------------------------------- MODULE Props --------------------------------
(***************************************************************************)
(* The listed properties, formulated a second time, independently of the   *)
(* operators of StepFn and Stats: functions pointwise at probe points from *)
(* both sides, statistics by counting unit cells of the integer line,      *)
(* windows by enumerating half-integer points, medians and quantiles by    *)
(* sorting cells.  Model.tla checks Outcome(h, e) against this for every   *)
(* call of every enumerated program: Holds(h, e, r) has to be true.        *)
(***************************************************************************)
EXTENDS Staircase, Laws

\* ------------------------------------------------------------ probe points
RECURSIVE PtsOf(_, _)
PtsOf(fs, k) == IF k = 0 THEN {} ELSE Pts(fs[k]) \cup PtsOf(fs, k - 1)
Near(S) == S \cup { x - 1 : x \in S } \cup { x + 1 : x \in S } \cup {0}
Probe(fs, S) == Near(PtsOf(fs, Len(fs)) \cup S)
OptPts(o) == IF Missing(o) THEN {} ELSE {o[1]}

\* F is minimal and has, at every probe point and from both sides, the value G(x, side)
PW(F, S, G(_, _)) ==
    /\ Minimal(F)
    /\ \A x \in S : \A s \in Sides : Lim(F, x, s) = G(x, s)

Def(x) == ~IsNaN(x)
True(x) == x # Zero
\* x o y for arithmetic, on integers: (a/b) o (c/d)
ArithIs(o, x, y, z) ==
    IF IsNaN(x) \/ IsNaN(y) \/ (o = "div" /\ y = Zero) THEN IsNaN(z)
    ELSE /\ Def(z) /\ z[2] > 0
         /\ LET a == x[1]  b == x[2]  c == y[1]  d == y[2]
            IN CASE o = "add" -> z[1] * b * d = (a * d + c * b) * z[2]
                 [] o = "sub" -> z[1] * b * d = (a * d - c * b) * z[2]
                 [] o = "mul" -> z[1] * b * d = a * c * z[2]
                 [] o = "div" -> z[1] * b * c = a * d * z[2]
RelIs(o, x, y, z) ==
    IF IsNaN(x) \/ IsNaN(y) THEN IsNaN(z)
    ELSE LET u == x[1] * y[2]  w == y[1] * x[2]
         IN z = Q(IF (CASE o = "lt" -> u < w [] o = "le" -> u <= w [] o = "gt" -> u > w
                        [] o = "ge" -> u >= w [] o = "eq" -> u = w [] o = "ne" -> u # w) THEN 1 ELSE 0)
LogicIs(o, x, y, z) ==
    IF IsNaN(x) \/ IsNaN(y) THEN IsNaN(z)
    ELSE LET n == (IF True(x) THEN 1 ELSE 0) + (IF True(y) THEN 1 ELSE 0)
         IN z = Q(CASE o = "and" -> (IF n = 2 THEN 1 ELSE 0) [] o = "or" -> (IF n = 0 THEN 0 ELSE 1) [] o = "xor" -> n % 2)
BinIs(o, x, y, z) ==
    IF o \in ArithOps THEN ArithIs(o, x, y, z) ELSE IF o \in RelOps THEN RelIs(o, x, y, z) ELSE LogicIs(o, x, y, z)
BinHolds(o, f, g, F) ==
    /\ Minimal(F)
    /\ \A x \in Probe(<<f, g, F>>, {}) : \A s \in Sides : BinIs(o, Lim(f, x, s), Lim(g, x, s), Lim(F, x, s))

\* inside an interval, seen from side s: the piece just left / right of x lies in it
In(a, b, x, s) == IF s = "right" THEN (Missing(a) \/ a[1] <= x) /\ (Missing(b) \/ x < b[1])
                  ELSE (Missing(a) \/ a[1] < x) /\ (Missing(b) \/ x <= b[1])

\* ------------------------------------------------------------- closed sides
SideOf(fs) == IF \E k \in 1 .. Len(fs) : HasSteps(fs[k])
              THEN LET k == CHOOSE k \in 1 .. Len(fs) : HasSteps(fs[k]) /\ \A j \in 1 .. k - 1 : ~HasSteps(fs[j]) IN fs[k].c
              ELSE fs[1].c
Opposite(fs) == { fs[k].c : k \in { j \in 1 .. Len(fs) : HasSteps(fs[j]) } } = Sides

\* --------------------------------------------------------------- unit cells
\* the cells [t, t+1) between the first and the last step point, defined ones
Cells(f) ==
    IF f.p = <<>> THEN <<>>
    ELSE SelectSeq([k \in 1 .. f.p[Len(f.p)] - f.p[1] |-> LimR(f, f.p[1] + k - 1)], Def)
RECURSIVE AddAll(_, _)
AddAll(s, k) == IF k = 0 THEN Zero ELSE Add(AddAll(s, k - 1), s[k])
SumC(s) == AddAll(s, Len(s))
MeanC(s) == Div(SumC(s), Q(Len(s)))
VarC(s) == LET m == MeanC(s) IN Div(SumC([k \in 1 .. Len(s) |-> Mul(Sub(s[k], m), Sub(s[k], m))]), Q(Len(s)))
CountC(s, P(_)) == Len(SelectSeq(s, P))
\* lower and upper q-quantile of the sorted cells, midpoint
QuantC(s, q) ==
    LET t == SortSeq(s, Lt)
        n == Len(t)
        pos == Mul(q, Q(n))
        lo == IF Ceil(pos) < 1 THEN 1 ELSE Ceil(pos)
        hi == IF Floor(pos) + 1 > n THEN n ELSE Floor(pos) + 1
    IN Div(Add(t[lo], t[hi]), Q(2))
\* cells of f inside [a, b)
CellsIn(f, a, b) == SelectSeq([k \in 1 .. b - a |-> LimR(f, a + k - 1)], Def)
\* cells of a restriction to an optional window: unbounded pieces do not count
CellsW(f, lo, hi) ==
    IF f.p = <<>> /\ (Missing(lo) \/ Missing(hi)) THEN <<>>
    ELSE LET a == IF ~Missing(lo) THEN lo[1] ELSE f.p[1]
             b == IF ~Missing(hi) THEN hi[1] ELSE f.p[Len(f.p)]
         IN IF b <= a THEN <<>> ELSE CellsIn(f, a, b)

\* ---------------------------------------------------- half-integer points
AtHalf(f, y) == IF y % 2 = 0 THEN Eval(f, y \div 2) ELSE LimR(f, (y - 1) \div 2)
TakenIn(f, lo, hi, cl) ==
    LET S == PtsOf(<<f>>, 1) \cup OptPts(lo) \cup OptPts(hi) \cup {0}
        mn == CHOOSE x \in S : \A y \in S : x <= y
        mx == CHOOSE x \in S : \A y \in S : y <= x
        a == IF Missing(lo) THEN 2 * mn - 2 ELSE IF cl \in {"left", "both"} THEN 2 * lo[1] ELSE 2 * lo[1] + 1
        b == IF Missing(hi) THEN 2 * mx + 2 ELSE IF cl \in {"right", "both"} THEN 2 * hi[1] ELSE 2 * hi[1] - 1
    IN { AtHalf(f, y) : y \in a .. b } \ {NaN}
IsMin(x, S) == IF S = {} THEN IsNaN(x) ELSE x \in S /\ \A y \in S : ~Lt(y, x)
IsMax(x, S) == IF S = {} THEN IsNaN(x) ELSE x \in S /\ \A y \in S : ~Lt(x, y)

\* ------------------------------------------------------------- slice by cells
SliceIs(f, name, a, b, cl, x) ==
    LET s == CellsIn(f, a, b)
    IN CASE name \in {"min", "max"} ->
              LET S == TakenIn(f, <<a>>, <<b>>, cl) IN IF name = "min" THEN IsMin(x, S) ELSE IsMax(x, S)
         [] s = <<>> -> IsNaN(x)
         [] name = "mean" -> x = MeanC(s)
         [] name = "integral" -> x = SumC(s)
         [] name = "median" -> x = QuantC(s, <<1, 2>>)
         [] name = "var" -> x = VarC(s)

CovCells(f, g, lo, up, lag, clip) ==
    LET a == IF Missing(lo) THEN -99 ELSE lo[1]
        hi == IF Missing(up) THEN 99 ELSE IF clip = "pre" /\ lag # 0 THEN up[1] - lag ELSE up[1]
        ks == SelectSeq([k \in 1 .. hi - a |-> a + k - 1], LAMBDA t : Def(LimR(f, t)) /\ Def(LimR(g, t + lag)))
    IN [k \in 1 .. Len(ks) |-> <<LimR(f, ks[k]), LimR(g, ks[k] + lag)>>]
\* the operator Cov(f,g) of a sequence of cell pairs
CovPairs(s) ==
    LET n == Len(s)
    IN Sub(MeanC([k \in 1 .. n |-> Mul(s[k][1], s[k][2])]),
           Mul(MeanC([k \in 1 .. n |-> s[k][1]]), MeanC([k \in 1 .. n |-> s[k][2]])))
Swap(s) == [k \in 1 .. Len(s) |-> <<s[k][2], s[k][1]>>]
Diag(s, j) == [k \in 1 .. Len(s) |-> <<s[k][j], s[k][j]>>]

RollIs(f, l, r, lo, hi, x, y) ==
    LET a == IF Missing(lo) \/ x + l > lo[1] THEN x + l ELSE lo[1]
        b == IF Missing(hi) \/ x + r < hi[1] THEN x + r ELSE hi[1]
        s == IF b <= a THEN <<>> ELSE CellsIn(f, a, b)
    IN IF s = <<>> THEN IsNaN(y) ELSE y = MeanC(s)
\* linear interpolation between consecutive knots, at every integer point between them
InterpIs(f, l, r, lo, hi, xs, ys) ==
    \A k \in 1 .. Len(xs) - 1 :
        LET a == xs[k]  b == xs[k + 1]
            dom == \A t \in (a + l) .. (b + r - 1) : Def(LimR(f, t)) /\ (Missing(lo) \/ lo[1] <= t) /\ (Missing(hi) \/ t < hi[1])
        IN dom => \A x \in a .. b :
              RollIs(f, l, r, lo, hi, x, Add(ys[k], Mul(Sub(ys[k + 1], ys[k]), Norm(x - a, b - a))))

HistIs(s, bs, side, stat, x) ==
    LET n(b) == CountC(s, LAMBDA v : IF side = "left" THEN ~Lt(v, b[1]) /\ Lt(v, b[2]) ELSE Lt(b[1], v) /\ ~Lt(b[2], v))
        w(k) == Sub(bs[k][2], bs[k][1])
    IN CASE stat = "sum" -> \A k \in 1 .. Len(bs) : x[k] = Q(n(bs[k]))
         [] stat = "frequency" -> \A k \in 1 .. Len(bs) : Mul(x[k], w(k)) = Q(n(bs[k]))
         [] stat = "probability" -> \A k \in 1 .. Len(bs) : Mul(x[k], Q(Len(s))) = Q(n(bs[k]))
         [] stat = "density" -> SumC([k \in 1 .. Len(bs) |-> Mul(x[k], w(k))]) = One
                                \/ \A k \in 1 .. Len(bs) : IsNaN(x[k])

\* -------------------------------------------------------- the whole property
Operands(h, e) ==
    CASE e.op \in {"agg", "arrneg", "table", "covm", "corrm", "law"} -> Fns(h, e.ids)
      [] e.op = "arrbin" -> Fns(h, e.ids) \o (IF e.b[1] = "l" THEN Fns(h, e.b[2]) ELSE IF e.b[1] = "o" THEN <<h[e.b[2]]>> ELSE <<>>)
      [] OTHER -> (IF "a" \in DOMAIN e /\ e.a[1] = "o" THEN <<h[e.a[2]]>> ELSE <<>>)
                  \o (IF "b" \in DOMAIN e /\ e.op # "resample" /\ e.b[1] = "o" THEN <<h[e.b[2]]>> ELSE <<>>)

Merging == {"bin", "mask", "where", "fillf", "agg", "cov", "corr", "covm", "corrm"}

\* C13, C12, C15: whatever the call
Frame(h, e, r) ==
    LET h2 == After(h, r)
        ops == Operands(h, e)
    IN /\ \A k \in 1 .. Len(h) : h2[k] = h[k] \/ (e.op = "layer" /\ k = e.a[2])
       /\ \A k \in Len(h) + 1 .. Len(h2) : WellFormed(h2[k]) /\ Minimal(h2[k])
       /\ e.op \in Merging => (r.k = "err") = Opposite(ops)
       /\ e.op \notin Merging \cup {"arrbin"} => r.k # "err"
       /\ r.k = "new" /\ e.op \notin ConstrOps => r.f.c = SideOf(ops)

LayerIs(f, ts, F) ==
    PW(F, Probe(<<f, F>>, LayerPts(ts)),
       LAMBDA x, s : IF IsNaN(Lim(f, x, s)) THEN NaN
                     ELSE Add(Lim(f, x, s), SumC([k \in 1 .. Len(ts) |->
                          LET on == IF Missing(ts[k].s) THEN 1 ELSE IF (IF s = "right" THEN ts[k].s[1] <= x ELSE ts[k].s[1] < x) THEN 1 ELSE 0
                              off == IF Missing(ts[k].e) THEN 0 ELSE IF (IF s = "right" THEN ts[k].e[1] <= x ELSE ts[k].e[1] < x) THEN 1 ELSE 0
                          IN Mul(Q(on - off), ts[k].v)])))

AggIs(name, vs, z) ==
    IF \E k \in 1 .. Len(vs) : IsNaN(vs[k]) THEN IsNaN(z)
    ELSE LET n == Len(vs)
             S == { vs[k] : k \in 1 .. n }
             below == Cardinality({ k \in 1 .. n : Lt(vs[k], z) })
             above == Cardinality({ k \in 1 .. n : Lt(z, vs[k]) })
             t == SortSeq(vs, Lt)
         IN CASE name = "sum" -> z = SumC(vs)
              [] name = "mean" -> Mul(z, Q(n)) = SumC(vs)
              [] name = "median" -> IF n % 2 = 1 THEN z \in S /\ 2 * below < n /\ 2 * above < n
                                    ELSE Add(z, z) = Add(t[n \div 2], t[n \div 2 + 1])
              [] name = "min" -> IsMin(z, S)
              [] name = "max" -> IsMax(z, S)
              [] name = "logical_or" -> z = (IF \E x \in S : True(x) THEN One ELSE Zero)
              [] name = "logical_and" -> z = (IF \A x \in S : True(x) THEN One ELSE Zero)

StatIs(f, name, s, x) ==
    CASE name = "integral" -> x = SumC(s)
      [] name = "mean" -> x = MeanC(s)
      [] name \in {"var", "std"} -> x = VarC(s)
      [] name = "median" -> x = QuantC(s, <<1, 2>>)

Says(h, e, r) ==
    LET A == h[e.a[2]]
        B == h[e.b[2]]
        F == r.f
    IN
    CASE r.k \in {"any", "err", "quiet"} -> TRUE
      [] e.op = "new" -> LayerIs(Const(e.c, e.i), e.ts, F) /\ F.c = e.c /\ LayerRun(Const(e.c, e.i), e.ts) = F
      [] e.op = "fromvals" -> PW(F, Probe(<<F>>, { e.p[k] : k \in 1 .. Len(e.p) }),
              LAMBDA x, s : LET n == Cardinality({ k \in 1 .. Len(e.p) : IF s = "right" THEN e.p[k] <= x ELSE e.p[k] < x })
                            IN IF n = 0 THEN e.i ELSE e.v[n])
      [] e.op = "layer" -> LayerIs(A, e.ts, F) /\ F.c = A.c /\ LayerRun(A, e.ts) = F
      [] e.op = "copy" -> F = A
      [] e.op = "un" -> PW(F, Probe(<<A, F>>, {}), LAMBDA x, s :
              LET y == Lim(A, x, s)
              IN CASE e.f = "isna" -> (IF IsNaN(y) THEN One ELSE Zero)
                   [] e.f = "notna" -> (IF IsNaN(y) THEN Zero ELSE One)
                   [] IsNaN(y) -> NaN
                   [] e.f = "neg" -> <<0 - y[1], y[2]>>
                   [] e.f = "inv" -> (IF True(y) THEN Zero ELSE One)
                   [] e.f = "bool" -> (IF True(y) THEN One ELSE Zero))
      [] e.op = "bin" -> BinHolds(e.f, Left(h, e), Right(h, e), F)
      [] e.op \in {"clip", "wheretup"} -> PW(F, Probe(<<A, F>>, OptPts(e.lo) \cup OptPts(e.hi)),
              LAMBDA x, s : IF In(e.lo, e.hi, x, s) THEN Lim(A, x, s) ELSE NaN)
      [] e.op = "masktup" -> PW(F, Probe(<<A, F>>, OptPts(e.lo) \cup OptPts(e.hi)),
              LAMBDA x, s : IF In(e.lo, e.hi, x, s) THEN NaN ELSE Lim(A, x, s))
      [] e.op \in {"mask", "where"} -> PW(F, Probe(<<A, B, F>>, {}),
              LAMBDA x, s : LET y == Lim(B, x, s)
                            IN IF Def(y) /\ (True(y) <=> (e.op = "where")) THEN Lim(A, x, s) ELSE NaN)
      [] e.op = "fills" -> PW(F, Probe(<<A, F>>, {}), LAMBDA x, s : IF Def(Lim(A, x, s)) THEN Lim(A, x, s) ELSE e.x)
      [] e.op = "fillf" -> PW(F, Probe(<<A, B, F>>, {}), LAMBDA x, s : IF Def(Lim(A, x, s)) THEN Lim(A, x, s) ELSE Lim(B, x, s))
      [] e.op = "fillm" -> PW(F, Probe(<<A, F>>, {}), LAMBDA x, s :
              LET S == Pts(A) \cup {x}
                  mn == (CHOOSE y \in S : \A z \in S : y <= z) - 1
                  mx == (CHOOSE y \in S : \A z \in S : z <= y) + 1
                  c == IF s = "right" THEN x ELSE x - 1       \* the cell seen
                  D == { t \in mn .. mx : Def(LimR(A, t)) /\ (IF e.f \in {"ffill", "pad"} THEN t <= c ELSE c <= t) }
              IN IF D = {} THEN NaN
                 ELSE LimR(A, IF e.f \in {"ffill", "pad"} THEN CHOOSE y \in D : \A z \in D : z <= y
                              ELSE CHOOSE y \in D : \A z \in D : y <= z))
      [] e.op = "shift" -> PW(F, Probe(<<A, F>>, {}), LAMBDA x, s : Lim(A, x - e.d, s))
      [] e.op = "diff" -> Minimal(F) /\ \A x \in Probe(<<A, F>>, {}) : \A s \in Sides :
              ArithIs("sub", Lim(A, x, s), Lim(A, x - e.d, s), Lim(F, x, s))
      [] e.op = "agg" -> Minimal(F) /\ \A x \in Probe(<<F>> \o Fns(h, e.ids), {}) : \A s \in Sides :
              AggIs(e.f, [k \in 1 .. Len(e.ids) |-> Lim(h[e.ids[k]], x, s)], Lim(F, x, s))
      [] e.op = "slices" -> \A j \in 1 .. Len(e.ivs) : PW(r.fs[j], Probe(<<A, r.fs[j]>>, {e.ivs[j][1], e.ivs[j][2]}),
              LAMBDA x, s : IF In(<<e.ivs[j][1]>>, <<e.ivs[j][2]>>, x, s) THEN Lim(A, x, s) ELSE NaN)
      [] e.op = "resample" -> Minimal(F) /\ \A x \in Probe(<<A, F>>, { e.b[k] : k \in 1 .. Len(e.b) }) : \A s \in Sides :
              LET js == { j \in 1 .. Len(e.b) - 1 : In(<<e.b[j]>>, <<e.b[j + 1]>>, x, s) }
              IN IF js = {} THEN Lim(F, x, s) = Lim(A, x, s)
                 ELSE LET j == CHOOSE j \in js : TRUE
                      IN Cardinality(js) = 1 /\ (e.f = "mode" \/ SliceIs(A, e.f, e.b[j], e.b[j + 1], e.cl, Lim(F, x, s)))
      [] e.op = "arrbin" -> \A j \in 1 .. Len(e.ids) :
              LET f == h[e.ids[j]]
                  g == IF e.b[1] = "l" THEN h[e.b[2][j]] ELSE IF e.b[1] = "o" THEN h[e.b[2]] ELSE Const(f.c, e.b[2])
              IN IF e.rev THEN BinHolds(e.f, g, f, r.fs[j]) ELSE BinHolds(e.f, f, g, r.fs[j])
      [] e.op = "arrneg" -> \A j \in 1 .. Len(e.ids) : PW(r.fs[j], Probe(<<h[e.ids[j]]>>, {}),
              LAMBDA x, s : Neg(Lim(h[e.ids[j]], x, s)))
      \* ------------------------------------------------------------- queries
      [] e.op = "limit" -> \A j \in 1 .. Len(e.xs) :
              r.x[j] = LimR(A, IF e.side = "right" THEN e.xs[j] ELSE e.xs[j] - 1)     \* points are integers
      [] e.op = "sample" -> \A j \in 1 .. Len(e.xs) :
              r.x[j] = Lim(A, e.xs[j], IF A.c = "left" THEN "right" ELSE "left")
              /\ (e.xs[j] \notin Pts(A) => LimL(A, e.xs[j]) = LimR(A, e.xs[j]))
      [] e.op = "views" ->
              /\ r.x.n = Len(r.x.p) /\ Strict(r.x.p)
              /\ \A k \in 1 .. r.x.n : r.x.v[k] = LimR(A, r.x.p[k]) /\ LimL(A, r.x.p[k]) # LimR(A, r.x.p[k])
              /\ (EverywhereDefined(A) => \A k \in 1 .. r.x.n : Add(r.x.i, SumC(SubSeq(r.x.cs, 1, k))) = r.x.v[k])
      [] e.op = "ident" -> r.x = \A x \in Probe(<<Left(h, e), Right(h, e)>>, {}) : \A s \in Sides :
                                      Lim(Left(h, e), x, s) = Lim(Right(h, e), x, s)
      [] e.op = "truth" -> r.x = \A x \in Probe(<<A>>, {}) : LimL(A, x) = One /\ LimR(A, x) = One
      [] e.op = "stat" /\ e.f = "min" -> IsMin(r.x, TakenIn(A, <<>>, <<>>, "both"))
      [] e.op = "stat" /\ e.f = "max" -> IsMax(r.x, TakenIn(A, <<>>, <<>>, "both"))
      [] e.op = "stat" /\ e.f = "mode" -> LET s == Cells(A) IN
              r.s = { v \in { s[k] : k \in 1 .. Len(s) } :
                      \A k \in 1 .. Len(s) : CountC(s, LAMBDA y : y = s[k]) <= CountC(s, LAMBDA y : y = v) }
      [] e.op = "stat" -> StatIs(A, e.f, Cells(A), r.x)
      [] e.op = "aggstat" /\ e.f \in {"min", "max"} ->
              LET S == TakenIn(A, e.lo, e.hi, IF e.cl = "" THEN A.c ELSE e.cl)
              IN IF e.f = "min" THEN IsMin(r.x, S) ELSE IsMax(r.x, S)
      [] e.op = "aggstat" /\ e.f # "mode" -> StatIs(A, e.f, CellsW(A, e.lo, e.hi), r.x)
      [] e.op = "vsums" -> LET s == Cells(A) IN
              /\ { r.x[k][1] : k \in 1 .. Len(r.x) } = { s[k] : k \in 1 .. Len(s) }
              /\ \A k \in 1 .. Len(r.x) : r.x[k][2] = CountC(s, LAMBDA y : y = r.x[k][1])
      [] e.op = "ecdf" -> LET s == Cells(A) IN \A j \in 1 .. Len(e.ys) :
              Mul(r.x[j], Q(Len(s))) = Q(CountC(s, LAMBDA y : IF e.side = "left" THEN Lt(y, e.ys[j]) ELSE Le(y, e.ys[j])))
      [] e.op = "pct" -> \A j \in 1 .. Len(e.qs) : r.x[j] = QuantC(Cells(A), Div(e.qs[j], Q(100)))
      [] e.op = "frac" -> \A j \in 1 .. Len(e.qs) : r.x[j] = QuantC(Cells(A), e.qs[j])
      [] e.op = "quant" -> Len(r.x) = e.q - 1 /\ \A j \in 1 .. Len(r.x) : r.x[j] = QuantC(Cells(A), Norm(j, e.q))
      [] e.op = "hist" -> HistIs(Cells(A), r.x.b, e.side, e.stat, r.x.x)
      [] e.op = "describe" -> LET s == CellsW(A, e.lo, e.hi) n == Len(r.x) IN
              /\ r.x[1] = Q(Cardinality({ s[k] : k \in 1 .. Len(s) }))
              /\ r.x[2] = MeanC(s) /\ r.x[3] = VarC(s)
              /\ \A k \in 1 .. Len(e.qs) : r.x[4 + k] = QuantC(s, Div(e.qs[k], Q(100)))
      [] e.op = "vir" -> { r.x[k] : k \in 1 .. Len(r.x) } = TakenIn(A, e.lo, e.hi, IF e.cl = "" THEN A.c ELSE e.cl)
      [] e.op = "slstat" -> \A j \in 1 .. Len(e.ivs) : SliceIs(A, e.f, e.ivs[j][1], e.ivs[j][2], e.cl, r.x[j])
      [] e.op = "slhist" -> \A j \in 1 .. Len(e.ivs) : HistIs(CellsIn(A, e.ivs[j][1], e.ivs[j][2]), e.bins, e.side, e.stat, r.x[j])
      [] e.op = "cov" -> LET s == CovCells(A, B, e.lo, e.hi, e.d, e.clip) IN
              r.x = CovPairs(s) /\ r.x = CovPairs(Swap(s))
      [] e.op = "corr" -> LET s == CovCells(A, B, e.lo, e.hi, e.d, e.clip)
                              vx == CovPairs(Diag(s, 1))  vy == CovPairs(Diag(s, 2))  c == CovPairs(s)
                          IN IF s = <<>> \/ vx = Zero \/ vy = Zero THEN IsNaN(r.x[2])
                             ELSE Mul(Mul(r.x[2], vx), vy) = Mul(c, c) /\ Le(r.x[2], One) /\ r.x[1] = Sign(c)
      [] e.op \in {"covm"} -> \A j, k \in 1 .. Len(e.ids) :
              r.x[j][k] = r.x[k][j] /\ r.x[j][k] = CovPairs(CovCells(h[e.ids[j]], h[e.ids[k]], e.lo, e.hi, 0, "pre"))
      [] e.op = "table" -> \A j \in 1 .. Len(e.ids) : \A k \in 1 .. Len(e.xs) :
              r.x[j][k] = Lim(h[e.ids[j]], e.xs[k],
                              IF e.side # "" THEN e.side ELSE IF h[e.ids[j]].c = "left" THEN "right" ELSE "left")
      [] e.op = "roll" -> /\ \A j \in 1 .. Len(r.x.x) : RollIs(A, e.l, e.r, e.lo, e.hi, r.x.x[j], r.x.y[j])
                          /\ InterpIs(A, e.l, e.r, e.lo, e.hi, r.x.x, r.x.y)
      [] e.op = "law" -> r.x = TRUE /\ LawHolds(e.f, h[e.ids[1]], h[e.ids[2]], h[e.ids[3]], e.x, e.d, e.lo, e.hi)
      [] OTHER -> TRUE

Holds(h, e, r) == Frame(h, e, r) /\ Says(h, e, r)
=============================================================================
