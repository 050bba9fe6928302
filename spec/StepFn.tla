------------------------------- MODULE StepFn -------------------------------
(***************************************************************************)
(* The abstract state of one staircase.Stairs object: a step function.     *)
(*                                                                         *)
(*   f = [c |-> "left" | "right",      closed side                         *)
(*        i |-> value,                 value towards -infinity             *)
(*        p |-> <<t1 < t2 < ...>>,     step points (integer ticks)         *)
(*        v |-> <<v1, v2, ...>>]       right limits at the step points     *)
(*                                                                         *)
(* Everything below is defined POINTWISE (by one-sided limits), never by   *)
(* the algorithms of the implementation; those are modelled in Impl.tla    *)
(* and checked to refine these definitions (exhaustively for one step      *)
(* from every heap over a small universe, by simulation beyond).           *)
(***************************************************************************)
EXTENDS Rat, FiniteSets, TLC, SequencesExt

Fn(c, i, p, v) == [c |-> c, i |-> i, p |-> p, v |-> v]
Const(c, x) == Fn(c, x, <<>>, <<>>)
Sides == {"left", "right"}

\* values at the k-th piece, k = 0 being the unbounded piece on the left
At(f, k) == IF k = 0 THEN f.i ELSE f.v[k]

\* number of step points <= x  /  < x
\* (by bisection: p is strictly increasing)
RECURSIVE CntLe(_, _, _, _)
CntLe(p, x, lo, hi) ==      \* p[lo] <= x < p[hi + 1]
    IF lo = hi THEN lo
    ELSE LET m == (lo + hi + 1) \div 2
         IN IF p[m] <= x THEN CntLe(p, x, m, hi) ELSE CntLe(p, x, lo, m - 1)

LimR(f, x) == At(f, CntLe(f.p, x, 0, Len(f.p)))
LimL(f, x) == At(f, CntLe(f.p, x - 1, 0, Len(f.p)))   \* step points are integers
Lim(f, x, side) == IF side = "left" THEN LimL(f, x) ELSE LimR(f, x)
Eval(f, x) == IF f.c = "left" THEN LimR(f, x) ELSE LimL(f, x)

AtEnd(f) == At(f, Len(f.p))          \* value towards +infinity
HasSteps(f) == f.p # <<>>

\* -------------------------------------------------- canonical (minimal) form
Strict(p) == \A k \in 1 .. Len(p) - 1 : p[k] < p[k + 1]
Minimal(f) ==
    /\ Strict(f.p)
    /\ \A k \in 1 .. Len(f.p) : f.v[k] # At(f, k - 1)

Canon(f) ==
    LET keep == SelectSeq([k \in 1 .. Len(f.p) |-> k], LAMBDA k : f.v[k] # At(f, k - 1))
    IN IF Len(keep) = Len(f.p) THEN f
       ELSE Fn(f.c, f.i, [j \in 1 .. Len(keep) |-> f.p[keep[j]]],
                         [j \in 1 .. Len(keep) |-> f.v[keep[j]]])

WellFormed(f) ==
    /\ f.c \in Sides
    /\ Len(f.p) = Len(f.v)
    /\ Strict(f.p)
    /\ IsVal(f.i)
    /\ \A k \in 1 .. Len(f.v) : IsVal(f.v[k])

\* f and g denote the same function (the closed side is a separate attribute)
SameFn(f, g) == f.i = g.i /\ f.p = g.p /\ f.v = g.v

EverywhereDefined(f) == ~IsNaN(f.i) /\ \A k \in 1 .. Len(f.v) : ~IsNaN(f.v[k])
AllUndefined(f) == IsNaN(f.i) /\ f.p = <<>>

\* --------------------------------------------------------------- point sets
Sorted(S) == SetToSortSeq(S, LAMBDA x, y : x < y)
Pts(f) == { f.p[k] : k \in 1 .. Len(f.p) }

\* function given by the value I at -inf and the right limit R(x) at points S
Build(c, I, S, R(_)) ==
    LET p == Sorted(S)
    IN Canon(Fn(c, I, p, [k \in 1 .. Len(p) |-> R(p[k])]))

Map1(f, F(_)) == Canon(Fn(f.c, F(f.i), f.p, [k \in 1 .. Len(f.v) |-> F(f.v[k])]))

\* closed side of a combination: of the operands having steps, else receiver
CSide(f, g) == IF HasSteps(f) THEN f.c ELSE IF HasSteps(g) THEN g.c ELSE f.c
Mismatch(f, g) == HasSteps(f) /\ HasSteps(g) /\ f.c # g.c

\* merge of two sorted point sequences
RECURSIVE Merge(_, _, _, _, _)
Merge(p, q, i, j, acc) ==
    IF i > Len(p) THEN acc \o SubSeq(q, j, Len(q))
    ELSE IF j > Len(q) THEN acc \o SubSeq(p, i, Len(p))
    ELSE IF p[i] = q[j] THEN Merge(p, q, i + 1, j + 1, Append(acc, p[i]))
    ELSE IF p[i] < q[j] THEN Merge(p, q, i + 1, j, Append(acc, p[i]))
    ELSE Merge(p, q, i, j + 1, Append(acc, q[j]))
Union2(p, q) == IF p = q THEN p ELSE IF q = <<>> THEN p ELSE IF p = <<>> THEN q
                ELSE Merge(p, q, 1, 1, <<>>)

Map2(f, g, F(_, _)) ==
    LET p == Union2(f.p, g.p)
    IN Canon(Fn(CSide(f, g), F(f.i, g.i), p,
                [k \in 1 .. Len(p) |-> F(LimR(f, p[k]), LimR(g, p[k]))]))

\* ----------------------------------------------------------- value operators
Rel(o, x, y) ==
    IF IsNaN(x) \/ IsNaN(y) THEN NaN
    ELSE Ind(CASE o = "lt" -> Lt(x, y)
               [] o = "le" -> Le(x, y)
               [] o = "gt" -> Lt(y, x)
               [] o = "ge" -> Le(y, x)
               [] o = "eq" -> x = y
               [] o = "ne" -> x # y)

Logic(o, x, y) ==
    IF IsNaN(x) \/ IsNaN(y) THEN NaN
    ELSE Ind(CASE o = "and" -> x[1] # 0 /\ y[1] # 0
               [] o = "or"  -> x[1] # 0 \/ y[1] # 0
               [] o = "xor" -> (x[1] # 0) # (y[1] # 0))

Bin(o, x, y) ==
    CASE o = "add" -> Add(x, y)
      [] o = "sub" -> Sub(x, y)
      [] o = "mul" -> Mul(x, y)
      [] o = "div" -> Div(x, y)
      [] o \in {"lt", "le", "gt", "ge", "eq", "ne"} -> Rel(o, x, y)
      [] o \in {"and", "or", "xor"} -> Logic(o, x, y)

ArithOps == {"add", "sub", "mul", "div"}
RelOps == {"lt", "le", "gt", "ge", "eq", "ne"}
LogicOps == {"and", "or", "xor"}
BinOps == ArithOps \cup RelOps \cup LogicOps

BinFn(o, f, g) == Map2(f, g, LAMBDA x, y : Bin(o, x, y))

UnVal(o, x) ==
    CASE o = "neg" -> Neg(x)
      [] o = "inv" -> IF IsNaN(x) THEN NaN ELSE Ind(x[1] = 0)
      [] o = "bool" -> IF IsNaN(x) THEN NaN ELSE Ind(x[1] # 0)
      [] o = "isna" -> Ind(IsNaN(x))
      [] o = "notna" -> Ind(~IsNaN(x))
UnOps == {"neg", "inv", "bool", "isna", "notna"}
UnFn(o, f) == Map1(f, LAMBDA x : UnVal(o, x))

\* ----------------------------------------------------------------- layering
\* an optional point is <<>> (missing) or <<t>>; a triple is [s, e, v]
Missing(o) == o = <<>>
Triple(s, e, v) == [s |-> s, e |-> e, v |-> v]

\* contribution of a triple to the value at x (right limit) / at -infinity
Contrib(t, x) ==
    LET up == Missing(t.s) \/ t.s[1] <= x
        dn == ~Missing(t.e) /\ t.e[1] <= x
    IN IF up = dn THEN Zero ELSE IF up THEN t.v ELSE Neg(t.v)

LayerPts(ts) == UNION { (IF Missing(ts[k].s) THEN {} ELSE {ts[k].s[1]})
                        \cup (IF Missing(ts[k].e) THEN {} ELSE {ts[k].e[1]})
                        : k \in 1 .. Len(ts) }

Layer(f, ts) ==
    Build(f.c,
          Add(f.i, SumV([k \in 1 .. Len(ts) |-> IF Missing(ts[k].s) THEN ts[k].v ELSE Zero])),
          Pts(f) \cup LayerPts(ts),
          LAMBDA x : Add(LimR(f, x), SumV([k \in 1 .. Len(ts) |-> Contrib(ts[k], x)])))

\* the same by running sums (for long vectors; equality with Layer is an invariant of Model.tla)
RECURSIVE Runs(_, _, _, _)
Runs(p, ts, k, acc) ==
    IF k > Len(p) THEN acc
    ELSE LET on == SelectSeq(ts, LAMBDA t : t.s = <<p[k]>>)
             off == SelectSeq(ts, LAMBDA t : t.e = <<p[k]>>)
             up == SumV([j \in 1 .. Len(on) |-> on[j].v])
             dn == SumV([j \in 1 .. Len(off) |-> off[j].v])
         IN Runs(p, ts, k + 1, Append(acc, Add(acc[k], Sub(up, dn))))
LayerRun(f, ts) ==
    LET p == Sorted(Pts(f) \cup LayerPts(ts))
        base == SumV([k \in 1 .. Len(ts) |-> IF Missing(ts[k].s) THEN ts[k].v ELSE Zero])
        run == Runs(p, ts, 1, <<base>>)
    IN Canon(Fn(f.c, Add(f.i, base), p, [k \in 1 .. Len(p) |-> Add(LimR(f, p[k]), run[k + 1])]))
LayerAll(f, ts) == IF Len(ts) > 8 THEN LayerRun(f, ts) ELSE Layer(f, ts)

\* ------------------------------------------------------------------ masking
\* indicator of the interval from a to b (optional bounds)
Indicator(c, a, b) == Layer(Const(c, Zero), <<Triple(a, b, One)>>)

Clip(f, a, b) ==
    LET inside(x) == (Missing(a) \/ a[1] <= x) /\ (Missing(b) \/ x < b[1])
        extra == (IF Missing(a) THEN {} ELSE {a[1]}) \cup (IF Missing(b) THEN {} ELSE {b[1]})
    IN Build(f.c, IF Missing(a) THEN f.i ELSE NaN, Pts(f) \cup extra,
             LAMBDA x : IF inside(x) THEN LimR(f, x) ELSE NaN)

Mask(f, g) == Map2(f, g, LAMBDA x, y : IF ~IsNaN(y) /\ y[1] = 0 THEN x ELSE NaN)
Where(f, g) == Map2(f, g, LAMBDA x, y : IF ~IsNaN(y) /\ y[1] # 0 THEN x ELSE NaN)
MaskTup(f, a, b) == Mask(f, Indicator(f.c, a, b))
WhereTup(f, a, b) == Where(f, Indicator(f.c, a, b))

\* ------------------------------------------------------------------ filling
FillScalar(f, x) == Map1(f, LAMBDA y : IF IsNaN(y) THEN x ELSE y)
FillFn(f, g) == Map2(f, g, LAMBDA x, y : IF IsNaN(x) THEN y ELSE x)
RECURSIVE PrevDef(_, _)
PrevDef(f, k) == IF k < 0 THEN NaN ELSE IF ~IsNaN(At(f, k)) THEN At(f, k) ELSE PrevDef(f, k - 1)
RECURSIVE NextDef(_, _)
NextDef(f, k) == IF k > Len(f.p) THEN NaN ELSE IF ~IsNaN(At(f, k)) THEN At(f, k) ELSE NextDef(f, k + 1)
FillMethod(f, m) ==
    LET val(k) == IF m \in {"ffill", "pad"} THEN PrevDef(f, k) ELSE NextDef(f, k)
    IN Canon(Fn(f.c, val(0), f.p, [k \in 1 .. Len(f.p) |-> val(k)]))

\* -------------------------------------------------------------- translation
Shift(f, d) == Fn(f.c, f.i, [k \in 1 .. Len(f.p) |-> f.p[k] + d], f.v)
Diff(f, d) == BinFn("sub", f, Shift(f, d))

\* -------------------------------------------------------------- collections
SomeNaN(s) == \E k \in 1 .. Len(s) : IsNaN(s[k])
RECURSIVE FoldV(_, _, _)
FoldV(F(_, _), s, k) == IF k = 1 THEN s[1] ELSE F(FoldV(F, s, k - 1), s[k])
MedianV(s) ==
    LET t == SortSeq(s, Lt)
        n == Len(t)
    IN IF n % 2 = 1 THEN t[(n + 1) \div 2]
       ELSE Div(Add(t[n \div 2], t[n \div 2 + 1]), Q(2))
AggV(name, s) ==
    IF SomeNaN(s) THEN NaN
    ELSE CASE name = "sum" -> SumV(s)
           [] name = "mean" -> Div(SumV(s), Q(Len(s)))
           [] name = "median" -> MedianV(s)
           [] name = "min" -> FoldV(MinV, s, Len(s))
           [] name = "max" -> FoldV(MaxV, s, Len(s))
           [] name = "logical_or" -> Ind(\E k \in 1 .. Len(s) : s[k][1] # 0)
           [] name = "logical_and" -> Ind(\A k \in 1 .. Len(s) : s[k][1] # 0)
AggNames == {"sum", "mean", "median", "min", "max", "logical_or", "logical_and"}

AggMismatch(fs) == \E j, k \in 1 .. Len(fs) : Mismatch(fs[j], fs[k])
AggSide(fs) ==
    LET w == SelectSeq(fs, HasSteps) IN IF w = <<>> THEN fs[1].c ELSE w[1].c
AggFns(name, fs) ==
    Build(AggSide(fs), AggV(name, [k \in 1 .. Len(fs) |-> fs[k].i]),
          UNION { Pts(fs[k]) : k \in 1 .. Len(fs) },
          LAMBDA x : AggV(name, [k \in 1 .. Len(fs) |-> LimR(fs[k], x)]))
=============================================================================
