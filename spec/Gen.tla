--------------------------------- MODULE Gen ---------------------------------
(***************************************************************************)
(* Programs of the state machine, enumerated.  A part is an exhaustively   *)
(* enumerated family of programs; a program is a tuple of step functions   *)
(* (drawn from a universe of all canonical functions over a few points and *)
(* values) and a sequence of calls.                                        *)
(*                                                                         *)
(* TLC evaluates the definition Programs and writes it to a file, which is *)
(* read twice: by Model.tla, which runs every program as a behaviour of    *)
(* the machine Staircase and checks the properties on it, and by the       *)
(* harness, which replays every program into the real library, where every *)
(* call is judged by Trace.tla.                                            *)
(*                                                                         *)
(* Environment: PROP, TIER (quick | thorough), OFFSET, DUMP (file).        *)
(* In a part with stride s only the programs k with Hash(k) = OFFSET mod s *)
(* are taken; stride 1 is the whole family.                                *)
(***************************************************************************)
EXTENDS Staircase, Json, IOUtils

PROP == IOEnv.PROP
QUICK == IOEnv.TIER = "quick"
OFFSET == atoi(IOEnv.OFFSET)

\* ------------------------------------------------------------ universes
Digit(k, b, j) == (k \div (b ^ j)) % b
U(V, T, k) == LET b == Len(V) IN
    Canon(Fn("left", V[Digit(k, b, 0) + 1], T, [j \in 1 .. Len(T) |-> V[Digit(k, b, j) + 1]]))
Size(V, T) == Len(V) ^ (Len(T) + 1)
H == <<-1, 2>>
V4 == <<NaN, Zero, Q(2), H>>                    \* arithmetic, exact
VB == <<NaN, Zero, One, Q(2)>>                  \* truth values
V3 == <<NaN, Zero, One>>
VS == <<NaN, Zero, Q(2), Q(-1)>>                \* statistics
VD == <<NaN, Q(-1), One, Q(3)>>                 \* distributions
T1 == <<1>>
T2 == <<0, 2>>
T3 == <<0, 1, 3>>
T4 == <<0, 1, 2, 4>>
\* a universe by name: <<values, points>>
Uni(u) ==
    CASE u = "a2" -> <<V4, T2>> [] u = "a3" -> <<V4, T3>>
      [] u = "b2" -> <<VB, T2>> [] u = "b3" -> <<VB, T3>>
      [] u = "s2" -> <<VS, T2>> [] u = "s3" -> <<VS, T3>> [] u = "s4" -> <<VS, T4>>
      [] u = "d3" -> <<VD, T3>> [] u = "d4" -> <<VD, T4>>
      [] u = "t1" -> <<V3, T1>> [] u = "t2" -> <<V3, T2>> [] u = "t3" -> <<V3, T3>> [] u = "t4" -> <<V3, T4>>
      [] u = "e2" -> <<<<NaN, Zero, Q(1), Q(3)>>, T2>>
      [] u = "c0" -> <<<<NaN, Zero, One, Q(-2)>>, <<>>>>
N(u) == Size(Uni(u)[1], Uni(u)[2])
F(u, k) == U(Uni(u)[1], Uni(u)[2], k)
On(c, f) == [f EXCEPT !.c = c]
CSide0(k) == IF k % 2 = 0 THEN "left" ELSE "right"

\* --------------------------------------------------------------- calls
ob(k) == <<"o", k>>
rs(j) == <<"o", 1000 + j>>          \* (first) result of the j-th call
sca(v) == <<"s", v>>
bin(o, a, b) == [op |-> "bin", f |-> o, a |-> a, b |-> b]
un(o, a) == [op |-> "un", f |-> o, a |-> a]
op2(o, a, b) == [op |-> o, a |-> a, b |-> b]
win(o, a, w) == [op |-> o, a |-> a, lo |-> w[1], hi |-> w[2]]
stat(n, a) == [op |-> "stat", f |-> n, a |-> a]
aggstat(n, a, w, cl) == [op |-> "aggstat", f |-> n, a |-> a, lo |-> w[1], hi |-> w[2], cl |-> cl]
layer(a, ts) == [op |-> "layer", a |-> a, ts |-> ts]
copy(a) == [op |-> "copy", a |-> a]
ident(a, b) == [op |-> "ident", a |-> a, b |-> b]
agg(n, ids) == [op |-> "agg", f |-> n, ids |-> ids]

\* ------------------------------------------------------- generic sequences
RECURSIVE Cat(_, _)
Cat(G(_), n) == IF n = 0 THEN <<>> ELSE Cat(G, n - 1) \o G(n)
Seqs(n, G(_)) == [k \in 1 .. n |-> G(k)]
Cross(A, B, G(_, _)) ==                      \* G over all pairs of two sequences
    LET m == Len(B) IN [k \in 1 .. Len(A) * m |-> G(A[((k - 1) \div m) + 1], B[((k - 1) % m) + 1])]
Cross3(A, B, C, G(_, _, _)) ==
    LET m == Len(B)  n == Len(C)
    IN [k \in 1 .. Len(A) * m * n |-> G(A[((k - 1) \div (m * n)) + 1], B[(((k - 1) \div n) % m) + 1], C[((k - 1) % n) + 1])]
Rng(a, b) == [k \in 1 .. b - a + 1 |-> a + k - 1]

ARITH == <<"add", "sub", "mul", "div">>
RELS == <<"lt", "le", "gt", "ge", "eq", "ne">>
LOGIC == <<"and", "or", "xor">>
UNS == <<"neg", "inv", "bool", "isna", "notna">>
AGGN == <<"sum", "mean", "median", "min", "max", "logical_or", "logical_and">>
CL4 == <<"left", "right", "both", "neither">>

\* windows: optional bounds on the grid a..b, lower below upper
Grid(a, b) == <<<<>>>> \o [k \in 1 .. b - a + 1 |-> <<a + k - 1>>]
Windows(a, b) == SelectSeq(Cross(Grid(a, b), Grid(a, b), LAMBDA x, y : <<x, y>>),
                           LAMBDA w : Missing(w[1]) \/ Missing(w[2]) \/ w[1][1] < w[2][1])
FiniteWindows(a, b) == SelectSeq(Windows(a, b), LAMBDA w : ~Missing(w[1]) /\ ~Missing(w[2]))

\* blocks of functions of a universe
BlockLen(u, B, k) == IF (k + 1) * B <= N(u) THEN B ELSE N(u) - k * B
Blocks(u, B) == (N(u) + B - 1) \div B
Block(u, B, k, c) == [j \in 1 .. BlockLen(u, B, k) |-> On(c, F(u, k * B + j - 1))]

\* all ordered pairs of a universe in blocks of B, some operations on each
PairsN(u, B) == Blocks(u, B) * Blocks(u, B)
PairsP(u, B, k, c, ops, G(_, _, _)) ==
    LET m == Blocks(u, B)
        X == Block(u, B, k \div m, c)
        Y == Block(u, B, k % m, c)
    IN [fns |-> X \o Y,
        calls |-> Cross3(Rng(1, Len(X)), Rng(Len(X) + 1, Len(X) + Len(Y)), ops, G)]
\* every function with all of some calls
EachP(u, B, k, c, args, G(_, _)) ==
    LET X == Block(u, B, k, c) IN [fns |-> X, calls |-> Cross(Rng(1, Len(X)), args, G)]

\* -------------------------------------------------------------- layering
Opts(a, b) == Grid(a, b)
Triples(T, V) == Cross3(T, T, V, LAMBDA s, e, v : Triple(s, e, v))
TR == Triples(<<<<>>, <<0>>, <<1>>, <<2>>>>, <<One, Q(-2)>>)      \* 32 triples
TRS == <<Triple(<<>>, <<>>, One), Triple(<<0>>, <<>>, Q(2)), Triple(<<>>, <<1>>, One), Triple(<<0>>, <<2>>, Q(-1)),
         Triple(<<1>>, <<1>>, Q(2)), Triple(<<2>>, <<1>>, One), Triple(<<1>>, <<3>>, H), Triple(<<2>>, <<>>, Q(-2))>>
Neg1(t) == [t EXCEPT !.v = Neg(t.v)]

\* ------------------------------------------------------------- statistics
Stats4 == <<"mean", "integral", "var", "std">>
MM == <<"min", "max">>
QS8 == [k \in 1 .. 9 |-> Norm(k - 1, 8)]
Pct8 == [k \in 1 .. 9 |-> Norm(100 * (k - 1), 8)]
Bins(E) == [k \in 1 .. Len(E) - 1 |-> <<E[k], E[k + 1]>>]
EdgesA == Bins(<<Q(-2), Q(-1), One, Q(3), Q(4)>>)
EdgesB == Bins(<<Q(-2), <<1, 2>>, Q(5)>>)
GapBins == <<<<Q(-1), Zero>>, <<One, Q(3)>>>>
hist(a, bins, side, st) == [op |-> "hist", a |-> a, bins |-> bins, side |-> side, stat |-> st]
HSTAT == <<"sum", "frequency", "density", "probability">>
SIDES == <<"left", "right">>
Dist(a) ==
    << [op |-> "ecdf", a |-> a, ys |-> <<Q(-2), Q(-1), Zero, One, Q(2), Q(3), Q(4)>>, side |-> "left"],
       [op |-> "ecdf", a |-> a, ys |-> <<Q(-2), Q(-1), Zero, One, Q(2), Q(3), Q(4)>>, side |-> "right"],
       [op |-> "pct", a |-> a, qs |-> Pct8], [op |-> "frac", a |-> a, qs |-> QS8],
       [op |-> "quant", a |-> a, q |-> 4], [op |-> "quant", a |-> a, q |-> 2],
       stat("median", a), stat("mode", a),
       [op |-> "describe", a |-> a, lo |-> <<>>, hi |-> <<>>, qs |-> <<Q(25), Q(50), Q(75)>>],
       [op |-> "describe", a |-> a, lo |-> <<0>>, hi |-> <<>>, qs |-> <<Zero, Q(50), Q(100)>>] >>
Hists(a) == Cross3(<<<<>>, EdgesA>>, SIDES, HSTAT, LAMBDA b, s, t : hist(a, b, s, t))
            \o << hist(a, EdgesB, "left", "sum"), hist(a, EdgesB, "right", "frequency"), hist(a, GapBins, "left", "sum"), hist(a, GapBins, "right", "sum") >>

\* ----------------------------------------------------------------- slicing
AllIvs == LET w == FiniteWindows(-1, 4) IN [k \in 1 .. Len(w) |-> <<w[k][1][1], w[k][2][1]>>]
Rev(s) == [k \in 1 .. Len(s) |-> s[Len(s) + 1 - k]]
SLST == <<"mean", "integral", "median", "min", "max">>
slstat(n, a, ivs, cl) == [op |-> "slstat", f |-> n, a |-> a, ivs |-> ivs, cl |-> cl]
\* increasing break sequences on the grid -1..4 (at least two)
Tilings == LET S == { X \in SUBSET (-1 .. 4) : Cardinality(X) >= 2 } IN
           LET q == SetToSeq(S) IN [k \in 1 .. Len(q) |-> Sorted(q[k])]
TilingsQ == <<<<0, 1, 3>>, <<-1, 0, 2, 4>>, <<0, 3>>, <<1, 2, 3>>, <<-1, 1>>, <<0, 2, 3, 4>>, <<2, 4>>, <<0, 1, 2, 3>>>>

\* the statistic of every slice of f is defined and unambiguous
Tame(f, b) == \A j \in 1 .. Len(b) - 1 : Pieces(Clip(f, <<b[j]>>, <<b[j + 1]>>)) # <<>>
UniMode(f, b) == \A j \in 1 .. Len(b) - 1 : Cardinality(ModeSet(Clip(f, <<b[j]>>, <<b[j + 1]>>))) = 1
resample(n, a, b, cl) == [op |-> "resample", f |-> n, a |-> a, b |-> b, cl |-> cl]
Resamples(id, f, bs) ==
    Cat(LAMBDA k : IF ~Tame(f, bs[k]) THEN <<>>
                   ELSE << resample("mean", ob(id), bs[k], "left"), resample("median", ob(id), bs[k], "left"),
                           resample("min", ob(id), bs[k], CL4[(k % 2) + 1]), resample("max", ob(id), bs[k], <<"left", "right", "neither">>[(k % 3) + 1]) >>
                        \o (IF UniMode(f, bs[k]) THEN <<resample("mode", ob(id), bs[k], "left")>> ELSE <<>>), Len(bs))

\* --------------------------------------------------------- rolling means
Rolls == <<<<-1, 1>>, <<-2, 0>>, <<0, 1>>, <<1, 3>>, <<-3, -1>>>>
RollW == <<<<<<>>, <<>>>>, <<<<0>>, <<3>>>>, <<<<1>>, <<>>>>, <<<<>>, <<2>>>>, <<<<-1>>, <<4>>>>>>
roll(a, w, z) == [op |-> "roll", a |-> a, l |-> w[1], r |-> w[2], lo |-> z[1], hi |-> z[2]]

\* ------------------------------------------------------------ cov and corr
cov(o, a, b, w, lag, clip) == [op |-> o, a |-> a, b |-> b, lo |-> w[1], hi |-> w[2], d |-> lag, clip |-> clip]
W0(a, b) == <<<<a>>, <<b>>>>
COVW == <<W0(0, 3), W0(-1, 4), W0(1, 3), W0(0, 2), <<<<>>, <<>>>>, <<<<1>>, <<>>>>, <<<<>>, <<2>>>>>>
LAGS == <<<<0, "pre">>, <<1, "pre">>, <<1, "post">>, <<-1, "pre">>, <<-1, "post">>, <<-2, "post">>>>

\* --------------------------------------- operations for histories / compositions
\* every function-valued call on operands a, b (exact values stay exact on small values)
AllOps(a, b) ==
    [k \in 1 .. 4 |-> bin(ARITH[k], a, b)] \o [k \in 1 .. 6 |-> bin(RELS[k], a, b)] \o [k \in 1 .. 3 |-> bin(LOGIC[k], a, b)]
    \o [k \in 1 .. 5 |-> un(UNS[k], a)]
    \o << op2("mask", a, b), op2("where", a, b), op2("fillf", a, b),
          win("clip", a, <<<<0>>, <<2>>>>), win("clip", a, <<<<>>, <<1>>>>), win("masktup", a, <<<<1>>, <<3>>>>), win("wheretup", a, <<<<1>>, <<>>>>),
          win("clip", a, <<<<>>, <<>>>>), win("masktup", a, <<<<>>, <<>>>>), win("wheretup", a, <<<<>>, <<>>>>),
          [op |-> "fills", a |-> a, x |-> Q(2)], [op |-> "fills", a |-> a, x |-> NaN], [op |-> "fillm", a |-> a, f |-> "ffill"], [op |-> "fillm", a |-> a, f |-> "bfill"],
          [op |-> "shift", a |-> a, d |-> 1], [op |-> "shift", a |-> a, d |-> 0], [op |-> "diff", a |-> a, d |-> 1], copy(a),
          bin("add", a, sca(One)), bin("sub", sca(One), a), bin("mul", a, sca(Zero)), bin("mul", a, sca(One)), bin("add", a, sca(Zero)), bin("div", a, sca(Q(2))),
          bin("gt", a, sca(Zero)), bin("and", a, sca(One)), bin("or", sca(Zero), a), bin("add", a, sca(NaN)) >>
NAllOps == Len(AllOps(ob(1), ob(2)))
AggOps(ids) == [k \in 1 .. 7 |-> agg(AGGN[k], ids)]

\* queries for histories
Queries(a) ==
    << stat("mean", a), stat("integral", a), stat("var", a), stat("std", a), stat("min", a), stat("max", a), stat("median", a), stat("mode", a),
       [op |-> "vsums", a |-> a], [op |-> "ecdf", a |-> a, ys |-> <<Q(-1), Zero, One, Q(2)>>, side |-> "right"],
       [op |-> "pct", a |-> a, qs |-> <<Zero, <<25, 2>>, <<125, 2>>, Q(100)>>], [op |-> "frac", a |-> a, qs |-> <<Zero, <<1, 8>>, <<7, 8>>, One>>],
       hist(a, <<>>, "left", "sum"), hist(a, EdgesA, "right", "probability"),
       [op |-> "vir", a |-> a, lo |-> <<0>>, hi |-> <<2>>, cl |-> "both"], aggstat("mean", a, <<<<0>>, <<3>>>>, ""), aggstat("max", a, <<<<0>>, <<2>>>>, "right"),
       slstat("mean", a, <<<<0, 1>>, <<0, 3>>>>, "left"), slstat("max", a, <<<<0, 2>>, <<1, 3>>>>, "right"),
       [op |-> "limit", a |-> a, xs |-> <<0, 1, 2, 3>>, side |-> "left"], [op |-> "sample", a |-> a, xs |-> <<0, 1, 2, 3>>], [op |-> "views", a |-> a] >>
NQ == Len(Queries(ob(1)))

\* --------------------------------------------------------------- histories
\* Words over the letters below, acting on two registers: x (first function 1) and
\* y (first function 2), and a bystander z (function 3).  st = [calls, x, y]; rot makes
\* the choice of query / operation vary.
Touches == <<"values", "changes", "frame", "points", "limit", "stats", "dist">>
HL == 11
HStep(st, letter, rot) ==
    LET n == Len(st.calls) + 1
        m == n + rot
        \* operands with the same closed side only
        op(a, b) == AllOps(a, b)[(m % NAllOps) + 1]
        put(c) == [st EXCEPT !.calls = Append(@, c)]
    IN CASE letter = 0 -> put(Queries(st.x)[(m % NQ) + 1])
         [] letter = 1 -> put(Queries(st.y)[((m + 7) % NQ) + 1])
         [] letter = 2 -> put(layer(st.x, <<Triple(<<0>>, <<>>, One)>>))
         [] letter = 3 -> put(layer(st.x, <<Triple(<<0>>, <<>>, Q(-1)), Triple(<<>>, <<1>>, Q(2))>>))
         [] letter = 4 -> put(layer(st.x, <<Triple(<<>>, <<>>, One)>>))
         [] letter = 5 -> put(layer(st.y, <<Triple(<<2>>, <<3>>, One)>>))
         [] letter = 6 -> [put(copy(st.x)) EXCEPT !.y = rs(n)]
         [] letter = 7 -> [put(op(st.x, ob(3))) EXCEPT !.y = rs(n)]
         [] letter = 8 -> [put(op(st.x, st.y)) EXCEPT !.x = rs(n)]
         [] letter = 9 -> put([op |-> "touch", a |-> st.x, f |-> Touches[(m % 7) + 1]])
         [] letter = 10 -> [put(op(ob(3), st.x)) EXCEPT !.y = rs(n)]
RECURSIVE HRun(_, _, _, _)
HRun(st, w, j, rot) == IF j = 0 THEN st ELSE HRun(HStep(st, w % HL, rot + w), w \div HL, j - 1, rot)
HBases == <<Const("left", Zero), Const("left", NaN), F("t2", 5), F("t2", 13), F("t2", 11), F("t2", 16), Fn("left", Q(2), <<0, 2>>, <<Zero, Q(2)>>), Fn("left", One, <<1>>, <<NaN>>)>>
HistoryP(k, len) ==
    LET w == k % (HL ^ len)
        b == k \div (HL ^ len)
        rot == (k * 31) % 1009
        c == CSide0(k)
        st == HRun([calls |-> <<>>, x |-> ob(1), y |-> ob(2)], w, len, rot)
        tail(a, d) == [j \in 1 .. 7 |-> Queries(a)[((rot + d + 3 * j) % NQ) + 1]]
    IN [fns |-> <<On(c, HBases[(b % Len(HBases)) + 1]), On(c, HBases[((b + rot) % Len(HBases)) + 1]), On(c, F("t2", rot % N("t2")))>>,
        fresh |-> PROP = "C14", snap |-> PROP = "C13",
        calls |-> st.calls \o tail(st.x, 0) \o tail(st.y, 1) \o <<[op |-> "views", a |-> st.x], [op |-> "views", a |-> st.y]>>]

\* -------------------------------------------------------------------- forms
\* every operation with its operands in every internal form (Impl.tla): each call has operands
\* of its own, built in the given form; results are observed, queried and layered upon
FORMS == <<"values", "changes", "both", "stats">>
FormP(k, len) ==
    LET n == N("t2")
        c == CSide0(k)
        f(j) == On(c, F("t2", (k + 5 * j) % n))
        g(j) == On(c, F("t2", (k \div n + 7 * j) % n))
        form(x) == FORMS[(x % 4) + 1]
        cell(j) == LET m == (k * 11 + j) % NAllOps
                       a == ob(2 * j - 1)
                       b == ob(2 * j)
                       r == rs(4 * (j - 1) + 1)
                   IN << AllOps(a, b)[m + 1], Queries(IF j % 3 = 0 THEN a ELSE r)[((k + 5 * j) % NQ) + 1],
                         layer(IF j % 5 = 0 THEN b ELSE r, <<TRS[((k + j) % Len(TRS)) + 1]>>), [op |-> "views", a |-> IF j % 2 = 0 THEN r ELSE a] >>
    IN [fns |-> [x \in 1 .. 2 * len |-> IF x % 2 = 1 THEN f((x + 1) \div 2) ELSE g(x \div 2)],
        fresh |-> PROP = "C14", snap |-> PROP = "C13",
        forms |-> [x \in 1 .. 2 * len |-> IF x % 2 = 1 THEN form(k + (x + 1) \div 2) ELSE form(k \div 4 + (x \div 2) \div 4 + x \div 2)],
        calls |-> Cat(cell, len)]

\* --------------------------------------------------------------- near misses
\* f and every function one edit away: a point moved, a value changed, a point dropped, everything shifted
Near(f, V) ==
    LET n == Len(f.p)
        at(k) == IF k = 0 THEN -1 ELSE IF k > n THEN 6 ELSE f.p[k]
        moves == Cross(Rng(1, n), <<-1, 1>>, LAMBDA k, d : IF at(k - 1) < f.p[k] + d /\ f.p[k] + d < at(k + 1) THEN [f EXCEPT !.p[k] = @ + d] ELSE f)
        vals == Cross(Rng(0, n), V, LAMBDA k, v : IF k = 0 THEN [f EXCEPT !.i = v] ELSE [f EXCEPT !.v[k] = v])
        drops == [k \in 1 .. n |-> Fn(f.c, f.i, SubSeq(f.p, 1, k - 1) \o SubSeq(f.p, k + 1, n), SubSeq(f.v, 1, k - 1) \o SubSeq(f.v, k + 1, n))]
        all == moves \o vals \o drops \o <<Shift(f, 1)>>
    IN [k \in 1 .. Len(all) |-> Canon(all[k])]
NearP(k) ==
    LET f == On(CSide0(k), F("t4", k))
        E == Near(f, V3)
    IN [fns |-> <<f>> \o E,
        calls |-> Cross(Rng(2, Len(E) + 1), <<0, 1>>, LAMBDA j, d : IF d = 0 THEN ident(ob(1), ob(j)) ELSE ident(ob(j), ob(1)))]

\* -------------------------------------------------------------------- laws
\* the identities of Laws.tla which belong to the property
AllLaws == <<"comm_add", "comm_mul", "comm_and", "comm_or", "comm_xor", "comm_eq", "assoc_add", "assoc_mul", "assoc_and", "assoc_or", "assoc_xor", "dist_mul", "dist_and", "dist_or", "demorgan", "selfsub", "subadd", "neg", "notnot", "dual", "duality_na", "clipwhere", "clipmask", "twice", "halve", "rel_flip", "rel_compl", "rel_split", "rel_diff", "xor_ne", "or_max", "shift_inv", "diff_def", "fill_idem", "fill_const", "sum_fold", "maxmin", "logic_fold", "refl", "scalar">>
LawsOf ==
    CASE PROP = "C01" -> <<"comm_add", "comm_mul", "assoc_add", "assoc_mul", "dist_mul", "selfsub", "subadd", "neg", "twice", "halve">>
      [] PROP = "C04" -> <<"comm_eq", "rel_flip", "rel_compl", "rel_split", "rel_diff">>
      [] PROP = "C05" -> <<"comm_and", "comm_or", "comm_xor", "assoc_and", "assoc_or", "assoc_xor", "dist_and", "dist_or", "demorgan", "notnot", "xor_ne", "or_max">>
      [] PROP = "C06" -> <<"dual", "duality_na", "clipwhere", "clipmask">>
      [] PROP = "C07" -> <<"fill_idem", "fill_const">>
      [] PROP = "C18" -> <<"sum_fold", "maxmin", "logic_fold">>
      [] PROP = "C20" -> <<"shift_inv", "diff_def">>
      [] OTHER -> AllLaws
SCV == <<Zero, One, Q(2), H, NaN>>
LawW == Windows(0, 3)
LawP(k) ==
    LET n == N("a2")
        c == CSide0(k \div 3)
    IN [fns |-> <<On(c, F("a2", k % n)), On(c, F("a2", k \div n)), On(c, Shift(F("a2", (k * 37 + 11) % n), (k % 3) - 1))>>,
        calls |-> [j \in 1 .. Len(LawsOf) |->
                     [op |-> "law", f |-> LawsOf[j], ids |-> <<1, 2, 3>>, x |-> SCV[((k + j) % Len(SCV)) + 1], d |-> ((k + 2 * j) % 7) - 3,
                      lo |-> LawW[((k + 3 * j) % Len(LawW)) + 1][1], hi |-> LawW[((k + 3 * j) % Len(LawW)) + 1][2]]]]

\* -------------------------------------------------------------------- walks
\* Random behaviours of the machine: a pseudo-random generator inside the specification
\* chooses the next call from the current state; results which leave the range of
\* exactly representable small values are not taken.  st.h are the functions which can
\* be referred to, st.refs how a program refers to them.
Nx(r) == (r * 75 + 74) % 65537
RECURSIVE It(_, _)
It(r, j) == IF j = 0 THEN r ELSE It(Nx(r), j - 1)
Pick(r, j, n) == (It(r, j) \div 5) % n
Of(s, x) == s[(x % Len(s)) + 1]

SmallV(x) == IsNaN(x) \/ (Abs(x[1]) <= 50 /\ x[2] \in {1, 2, 4, 8})
Small(f) == Len(f.p) <= 9 /\ SmallV(f.i) /\ (\A k \in 1 .. Len(f.v) : SmallV(f.v[k])) /\ (\A k \in 1 .. Len(f.p) : Abs(f.p[k]) <= 24)
IsPow2(n) == n \in {1, 2, 4, 8, 16, 32}
\* no share of the distribution equals q exactly (unless shares are exact in binary)
NoTie(ps, q) == IsPow2(Total(ps)) \/ \A v \in Vals(ps) : Q(LenLe(ps, v)) # Mul(q, Q(Total(ps)))

OptP(r, j, a, b) == IF Pick(r, j, 5) = 0 THEN <<>> ELSE <<a + Pick(r, j + 1, b - a + 1)>>
WTriple(r, j) == Triple(OptP(r, j, -1, 4), OptP(r, j + 2, -1, 5), Of(<<One, Q(2), Q(-1), Q(-2), H, Q(3)>>, Pick(r, j + 4, 30)))
WWin(r, j) == Of(Windows(-1, 5), Pick(r, j, 1000))
FineQ == <<Zero, <<7, 64>>, <<23, 64>>, <<41, 64>>, <<59, 64>>, One>>
FocusOps == [C01 |-> ARITH, C04 |-> RELS, C05 |-> LOGIC]

\* the property's own call on x (function f) and y (function g); ids refer to x, y
Focus(P, r, x, y, ids, f, g) ==
    LET z == Pick(r, 21, 1000)
        w == WWin(r, 22)
        ivs == LET W == FiniteWindows(-1, 4)
                   S == SelectSeq([k \in 1 .. 7 |-> Of(W, Pick(r, 30 + k, 1000))], LAMBDA v : Pieces(Clip(f, v[1], v[2])) # <<>>)
               IN [k \in 1 .. Len(S) |-> <<S[k][1][1], S[k][2][1]>>]
        til == Of(TilingsQ, z)
        fin == Of(Windows(-1, 5), z)
        lag == Of(LAGS, Pick(r, 24, 1000))
        ps == Pieces(f)
        none == [op |-> "views", a |-> x]
        some(s) == Of(s, Pick(r, 25, 1000))
        any == Of(AllOps(x, y), Pick(r, 26, 1000))
    IN CASE P \in {"C01", "C04", "C05"} -> LET o == some(FocusOps[P]) IN
              Of(<<bin(o, x, y), bin(o, x, y), bin(o, x, sca(Of(SCV, z))), bin(o, sca(Of(SCV, z)), x),
                   IF P = "C01" THEN un("neg", x) ELSE IF P = "C05" THEN un(some(<<"inv", "bool">>), x) ELSE bin(o, y, x)>>, Pick(r, 27, 1000))
         [] P = "C02" -> layer(x, [k \in 1 .. 1 + (z % 4) |-> WTriple(r, 30 + 5 * k)])
         [] P = "C03" -> Of(<< [op |-> "limit", a |-> x, xs |-> Rng(-3, 7), side |-> Of(SIDES, z)], [op |-> "sample", a |-> x, xs |-> <<5, 2, 2, 0, -4, 1, 3, 4>>], none>>, Pick(r, 27, 1000))
         [] P = "C06" -> Of(<<op2("mask", x, y), op2("where", x, y), win("clip", x, w), win("masktup", x, w), win("wheretup", x, w), un("isna", x), un("notna", x)>>, z)
         [] P = "C07" -> Of(<<op2("fillf", x, y), op2("fillf", x, y), [op |-> "fills", a |-> x, x |-> some(SCV)], [op |-> "fillm", a |-> x, f |-> some(<<"ffill", "pad", "bfill", "backfill">>)]>>, z)
         [] P = "C08" -> Of(<<stat(some(Stats4), x), aggstat(some(Stats4), x, w, ""), [op |-> "vsums", a |-> x], [op |-> "vsumsna", a |-> x]>>, z)
         [] P = "C09" -> IF ps = <<>> THEN none
                         ELSE Of(<< [op |-> "ecdf", a |-> x, ys |-> [k \in 1 .. 6 |-> some(<<Q(-3), H, Zero, One, Q(2), <<5, 2>>, Q(7)>>)], side |-> Of(SIDES, z)],
                                    [op |-> "frac", a |-> x, qs |-> IF IsPow2(Total(ps)) THEN QS8 ELSE FineQ],
                                    [op |-> "pct", a |-> x, qs |-> IF IsPow2(Total(ps)) THEN Pct8 ELSE <<Zero, Q(17), Q(37), Q(61), Q(83), Q(100)>>],
                                    stat("mode", x), hist(x, <<>>, Of(SIDES, z), some(HSTAT)), hist(x, EdgesA, Of(SIDES, z), some(<<"sum", "frequency">>)), hist(x, GapBins, Of(SIDES, z), "sum"),
                                    IF NoTie(ps, <<1, 2>>) THEN stat("median", x) ELSE none,
                                    IF \A q \in {<<1, 4>>, <<1, 2>>, <<3, 4>>} : NoTie(ps, q) THEN [op |-> "quant", a |-> x, q |-> 4] ELSE none,
                                    [op |-> "describe", a |-> x, lo |-> w[1], hi |-> w[2], qs |-> <<Zero, Q(100)>>] >>, Pick(r, 27, 1000))
         [] P = "C10" -> Of(<< [op |-> "vir", a |-> x, lo |-> w[1], hi |-> w[2], cl |-> some(CL4 \o <<"">>)], aggstat(Of(MM, z), x, w, some(CL4)), stat(Of(MM, z), x)>>, Pick(r, 27, 1000))
         [] P = "C11" -> IF z % 3 = 0 THEN (IF Tame(f, til) /\ \A j \in 1 .. Len(til) - 1 : NoTie(Pieces(Clip(f, <<til[j]>>, <<til[j + 1]>>)), <<1, 2>>)
                                            THEN resample(some(<<"mean", "median", "min", "max">>), x, til, "left") ELSE none)
                         ELSE IF ivs = <<>> THEN none
                         ELSE IF z % 5 = 0 THEN [op |-> "slmode", a |-> x, ivs |-> ivs, cl |-> some(CL4)]
                         ELSE IF z % 5 = 1 THEN [op |-> "slhist", a |-> x, ivs |-> ivs, cl |-> "left", bins |-> EdgesA, side |-> Of(SIDES, z), stat |-> "sum"]
                         ELSE IF z % 5 = 2 THEN [op |-> "slices", a |-> x, ivs |-> ivs, cl |-> some(CL4)]
                         ELSE slstat(Of(SLST, Pick(r, 27, 1000)), x, ivs, some(CL4))
         [] P = "C12" -> Of(<<ident(x, y), ident(x, sca(some(SCV))), [op |-> "truth", a |-> x], ident(y, x)>>, z)
         [] P = "C14" -> Of(Queries(x), IF ps = <<>> \/ ~NoTie(ps, <<1, 2>>) \/ ~IsPow2(Total(ps)) THEN NQ - 1 - (z % 3) ELSE z)
         [] P = "C18" -> IF z % 4 = 0 THEN [op |-> "table", ids |-> ids, xs |-> some(<<<<0, 1, 2>>, <<4, -1, 2>>, <<3>>>>), side |-> some(<<"", "left", "right">>)]
                         ELSE IF z % 4 = 1 THEN [op |-> "arrbin", f |-> some(ARITH \o RELS), ids |-> ids, b |-> Of(<<x, y, sca(Q(2))>>, z), rev |-> FALSE]
                         ELSE agg(some(AGGN), Of(<<ids, ids \o <<ids[1]>>>>, z))
         [] P = "C19" -> IF NoMoments(f, LagG(g, lag[1]), fin[1], LagHi(fin[2], lag[1], lag[2])) THEN none
                         ELSE cov(Of(<<"cov", "corr">>, Pick(r, 28, 1000)), x, y, fin, lag[1], lag[2])
         [] P = "C20" -> Of(<< [op |-> "shift", a |-> x, d |-> (z % 9) - 4], [op |-> "diff", a |-> x, d |-> (z % 9) - 4],
                               roll(x, Of(Rolls, z), w), roll(x, Of(Rolls, z), <<<<>>, <<>>>>)>>, Pick(r, 27, 1000))
         [] OTHER -> any

WStep(st, P) ==
    LET r == st.r
        n == Len(st.h)
        last == n - Pick(r, 2, IF n < 3 THEN n ELSE 3)
        a == IF Pick(r, 1, 3) < 2 THEN last ELSE 1 + Pick(r, 4, n)
        b == 1 + Pick(r, 5, n)
        k == Pick(r, 6, 10)
        E(x, y, ids) == IF k < 2 THEN layer(x, [j \in 1 .. 1 + Pick(r, 7, 2) |-> WTriple(r, 6 + 6 * j)])
                        ELSE IF k < 6 THEN Of(AllOps(x, y), Pick(r, 8, 1000))
                        ELSE Focus(P, r, x, y, ids, st.h[a], st.h[b])
        num(j) == st.refs[j][2]
        inner == [lim |-> 2147483647] @@ E(ob(a), ob(b), <<a, b>>)
        out == Outcome(st.h, inner)
        good == CASE out.k \in {"new", "mut"} -> Small(out.f)
                  [] out.k = "news" -> \A j \in 1 .. Len(out.fs) : Small(out.fs[j])
                  [] out.k \in {"any", "err"} -> FALSE
                  [] OTHER -> TRUE
        next == It(r, 60)
    IN IF ~good THEN [st EXCEPT !.r = next]
       ELSE [r |-> next, calls |-> Append(st.calls, E(st.refs[a], st.refs[b], <<num(a), num(b)>>)),
             h |-> IF out.k = "new" THEN Append(st.h, out.f) ELSE IF out.k = "news" THEN Append(st.h, out.fs[1])
                   ELSE IF out.k = "mut" THEN [st.h EXCEPT ![a] = out.f] ELSE st.h,
             refs |-> IF out.k \in {"new", "news"} THEN Append(st.refs, rs(Len(st.calls) + 1)) ELSE st.refs]
RECURSIVE WRun(_, _, _)
WRun(st, P, j) == IF j = 0 THEN st ELSE WRun(WStep(st, P), P, j - 1)
WalkU == <<"a3", "b3", "s3", "d3", "t4">>
WalkP(k, len) ==
    LET r == It((k * 7919 + 13 * OFFSET + 1) % 65537, 5)
        c == CSide0(Pick(r, 1, 100))
        f(j) == LET u == Of(WalkU, Pick(r, 2 * j, 1000)) IN On(c, F(u, Pick(r, 2 * j + 1, N(u))))
        fs == <<f(1), f(2), f(3)>>
        st == WRun([r |-> It(r, 9), calls |-> <<>>, h |-> fs, refs |-> <<ob(1), ob(2), ob(3)>>], PROP, len)
    IN [fns |-> fs, fresh |-> PROP = "C14", snap |-> PROP = "C13", calls |-> st.calls]

\* --------------------------------------------------------------- the parts
PairOps(P) == CASE P = "arith" -> ARITH [] P = "rel" -> RELS [] P = "logic" -> LOGIC

\* number of programs of a part
Count(P) ==
    CASE P = "arith" -> PairsN(IF QUICK THEN "a2" ELSE "a3", 4)
      [] P = "rel" -> PairsN(IF QUICK THEN "a2" ELSE "a3", 4)
      [] P = "logic" -> PairsN(IF QUICK THEN "b2" ELSE "b3", 4)
      [] P = "arithsc" -> Blocks("a3", 4) [] P = "relsc" -> Blocks("a3", 4) [] P = "logicsc" -> Blocks("b3", 4)
      [] P = "restrict" -> PairsN(IF QUICK THEN "b2" ELSE "b3", 4)
      [] P = "clip" -> Blocks("a3", 4) * 2
      [] P = "fillf" -> PairsN(IF QUICK THEN "a2" ELSE "a3", 4)
      [] P = "fills" -> Blocks("t4", 4)
      [] P = "stats" -> Blocks(IF QUICK THEN "s3" ELSE "s4", 4)
      [] P = "statwin" -> Blocks(IF QUICK THEN "s3" ELSE "s4", 2)
      [] P = "dist" -> Blocks("d4", 2)
      [] P = "hist" -> Blocks("d4", 2)
      [] P = "vir" -> Blocks(IF QUICK THEN "t3" ELSE "s3", 1) * 2
      [] P = "slice" -> Blocks(IF QUICK THEN "t3" ELSE "s3", 1) * 2
      [] P = "resample" -> Blocks(IF QUICK THEN "t3" ELSE "s3", 1) * 2
      [] P = "layer" -> 8 * Len(TR)
      [] P = "layer3" -> 8 * Len(TRS)
      [] P = "views" -> Blocks(IF QUICK THEN "t4" ELSE "s4", 4) * 2
      [] P = "ident" -> PairsN(IF QUICK THEN "s2" ELSE "s3", 6)
      [] P = "truth" -> Blocks("b3", 16)
      [] P = "minimal" -> N("t2") * N("t2")
      [] P = "alias" -> N("t2") * 6
      [] P = "stale" -> N("t2") * Len(TRS)
      [] P = "history" -> (HL ^ (IF QUICK THEN 3 ELSE 4)) * (IF QUICK THEN 4 ELSE 2)
      [] P = "sides" -> (N("t1") + N("c0")) * (N("t1") + N("c0")) * 4
      [] P = "compose" -> N("t1") * N("t1") * NAllOps
      [] P = "agg2" -> N("t2") * N("t2")
      [] P = "agg3" -> N("t1") * N("t1") * N("t1")
      [] P = "arrops" -> N("t1") * N("t1") * 3
      [] P = "table" -> N("t2") * 2
      [] P = "covs" -> PairsN("e2", 4)
      [] P = "covm" -> N("t2")
      [] P = "shift" -> Blocks("s3", 2)
      [] P = "laws" -> N("a2") * N("a2")
      [] P = "forms" -> N("t2") * N("t2")
      [] P = "near" -> N("t4")
      [] P = "walk" -> (IF QUICK THEN 120 ELSE 1500)
      [] P = "roll" -> Blocks(IF QUICK THEN "t3" ELSE "s3", 1)

\* fraction of the programs taken (stride); 1 = all of them
Stride(P) ==
    IF QUICK
    THEN CASE P \in {"arith", "restrict", "logic", "arithsc", "relsc", "logicsc", "clip"} -> 2
           [] P = "rel" -> 3
           [] P \in {"dist", "hist"} -> 4
           [] P \in {"vir", "slice"} -> 2 [] P = "resample" -> 3
           [] P \in {"layer"} -> 4 [] P = "layer3" -> 1
           [] P = "ident" -> 2 [] P = "minimal" -> 8 [] P = "alias" -> 3
           [] P = "stale" -> 3 [] P = "history" -> 20 [] P = "sides" -> 3 [] P = "compose" -> 16
           [] P = "laws" -> (IF PROP = "C12" THEN 150 ELSE IF PROP \in {"C01", "C04", "C05"} THEN 80 ELSE 40)
           [] P = "forms" -> 18 [] P = "near" -> 3
           [] P \in {"agg2", "agg3"} -> 2 [] P = "arrops" -> 2 [] P = "covs" -> 3
           [] OTHER -> 1
    ELSE CASE P \in {"arith", "rel", "fillf", "restrict"} -> 8
           [] P = "logic" -> 4
           [] P = "laws" -> (IF PROP \in {"C12", "C16"} THEN 16 ELSE 4)
           [] P = "ident" -> 4
           [] P = "history" -> 4
           [] OTHER -> 1

Prog(P, k) ==
    CASE P \in {"arith", "rel", "logic"} ->
           PairsP((IF P = "logic" THEN "b" ELSE "a") \o (IF QUICK THEN "2" ELSE "3"), 4, k, CSide0(k), PairOps(P), LAMBDA x, y, o : bin(o, ob(x), ob(y)))
      [] P \in {"arithsc", "relsc", "logicsc"} ->
           LET O == IF P = "arithsc" THEN ARITH ELSE IF P = "relsc" THEN RELS ELSE LOGIC
               q == EachP(IF P = "logicsc" THEN "b3" ELSE "a3", 4, k, CSide0(k), Cross(O, SCV, LAMBDA o, v : <<o, v>>), LAMBDA x, y : bin(y[1], ob(x), sca(y[2])))
               r == EachP(IF P = "logicsc" THEN "b3" ELSE "a3", 4, k, CSide0(k), Cross(O, SCV, LAMBDA o, v : <<o, v>>), LAMBDA x, y : bin(y[1], sca(y[2]), ob(x)))
               n == Len(q.fns)
           IN [fns |-> q.fns,
               calls |-> q.calls \o r.calls \o Cross(Rng(1, n), IF P = "arithsc" THEN <<"neg">> ELSE IF P = "logicsc" THEN <<"inv", "bool">> ELSE <<>>,
                                                     LAMBDA x, o : un(o, ob(x)))]
      [] P = "restrict" -> PairsP(IF QUICK THEN "b2" ELSE "b3", 4, k, CSide0(k), <<"mask", "where">>, LAMBDA x, y, o : op2(o, ob(x), ob(y)))
      [] P = "clip" ->
           LET m == k \div 2
               q == EachP("a3", 4, m, CSide0(k), Windows(0, 4), LAMBDA x, w : win(<<"clip", "masktup", "wheretup">>[((x + m + Len(w[1]) + (IF Missing(w[2]) THEN 0 ELSE w[2][1])) % 3) + 1], ob(x), w))
               n == Len(q.fns)
           IN [fns |-> q.fns, calls |-> q.calls \o Cross(Rng(1, n), <<"isna", "notna">>, LAMBDA x, o : un(o, ob(x)))]
      [] P = "fillf" -> PairsP(IF QUICK THEN "a2" ELSE "a3", 4, k, CSide0(k), <<"fillf">>, LAMBDA x, y, o : op2(o, ob(x), ob(y)))
      [] P = "fills" ->
           LET q == EachP("t4", 4, k, CSide0(k), <<Zero, One, Q(5), NaN>>, LAMBDA x, v : [op |-> "fills", a |-> ob(x), x |-> v])
           IN [fns |-> q.fns, calls |-> q.calls \o Cross(Rng(1, Len(q.fns)), <<"ffill", "pad", "bfill", "backfill">>, LAMBDA x, m : [op |-> "fillm", a |-> ob(x), f |-> m])]
      [] P = "stats" ->
           LET q == EachP(IF QUICK THEN "s3" ELSE "s4", 4, k, CSide0(k), Stats4, LAMBDA x, o : stat(o, ob(x)))
               n == Len(q.fns)
           IN [fns |-> q.fns, calls |-> q.calls \o [x \in 1 .. n |-> [op |-> "vsums", a |-> ob(x)]] \o [x \in 1 .. n |-> [op |-> "vsumsna", a |-> ob(x)]]]
      [] P = "statwin" -> EachP(IF QUICK THEN "s3" ELSE "s4", 2, k, CSide0(k), Windows(0, 4),
               LAMBDA x, w : aggstat(Stats4[((k + Len(w[1]) + (IF Missing(w[1]) THEN 0 ELSE w[1][1]) + (IF Missing(w[2]) THEN 0 ELSE w[2][1])) % 4) + 1], ob(x), w, ""))
      [] P = "dist" -> LET X == Block("d4", 2, k, CSide0(k)) IN [fns |-> X, calls |-> Cat(LAMBDA x : Dist(ob(x)), Len(X))]
      [] P = "hist" -> LET X == Block("d4", 2, k, CSide0(k)) IN [fns |-> X, calls |-> Cat(LAMBDA x : Hists(ob(x)), Len(X))]
      [] P = "vir" ->
           LET f == On(CSide0(k), F(IF QUICK THEN "t3" ELSE "s3", k \div 2))
           IN [fns |-> <<f>>,
               calls |-> Cross(Windows(0, 4), CL4 \o <<"">>, LAMBDA w, cl : [op |-> "vir", a |-> ob(1), lo |-> w[1], hi |-> w[2], cl |-> cl])
                         \o Cross3(Windows(0, 3), CL4, MM, LAMBDA w, cl, m : aggstat(m, ob(1), w, cl)) \o <<stat("min", ob(1)), stat("max", ob(1))>>]
      [] P = "slice" ->
           LET f == On(CSide0(k), F(IF QUICK THEN "t3" ELSE "s3", k \div 2))
               tame == SelectSeq(AllIvs, LAMBDA w : Pieces(Clip(f, <<w[1]>>, <<w[2]>>)) # <<>>)
               shuffled == [j \in 1 .. Len(tame) |-> tame[((7 * j + k) % Len(tame)) + 1]]
               ivs == IF Len(tame) % 7 = 0 THEN Rev(tame) ELSE shuffled
           IN [fns |-> <<f>>,
               calls |-> IF tame = <<>> THEN <<>>
                         ELSE Cross(SLST, CL4, LAMBDA n, cl : slstat(n, ob(1), ivs, cl))
                              \o << [op |-> "slmode", a |-> ob(1), ivs |-> ivs, cl |-> CL4[(k % 4) + 1]],
                                    [op |-> "slhist", a |-> ob(1), ivs |-> ivs, cl |-> "left", bins |-> EdgesA, side |-> CSide0(k + 1), stat |-> "sum"],
                                    [op |-> "slhist", a |-> ob(1), ivs |-> ivs, cl |-> "right", bins |-> EdgesA, side |-> CSide0(k), stat |-> "probability"],
                                    [op |-> "slices", a |-> ob(1), ivs |-> ivs, cl |-> CL4[(k % 4) + 1]] >>]
      [] P = "resample" ->
           LET f == On(CSide0(k), F(IF QUICK THEN "t3" ELSE "s3", k \div 2))
           IN [fns |-> <<f>>, calls |-> Resamples(1, f, IF QUICK THEN TilingsQ ELSE Tilings)]
      [] P = "layer" ->
           LET t == TR[(k % Len(TR)) + 1]
               base == <<Const("left", Zero), Const("right", NaN), On("right", F("t2", 5)), On("left", F("t2", 13)), F("t2", 11), Fn("left", One, <<1>>, <<NaN>>),
                         Fn("right", NaN, <<0, 2>>, <<Zero, One>>), Fn("left", Q(2), <<1, 2>>, <<Zero, Q(2)>>)>>
               f == base[(k \div Len(TR)) + 1]
           IN [fns |-> <<f>>,
               calls |-> Cat(LAMBDA j : LET n == 5 * (j - 1) IN
                                << copy(ob(1)), layer(rs(n + 1), <<t>>), layer(rs(n + 1), <<TR[j]>>),
                                   copy(ob(1)), layer(rs(n + 4), <<TR[j], t>>) >>, Len(TR))]
      [] P = "layer3" ->
           LET t == TRS[(k % Len(TRS)) + 1]
               base == <<Const("left", Zero), Const("right", NaN), On("right", F("t2", 5)), On("left", F("t2", 13)), F("t2", 11), Fn("left", One, <<1>>, <<NaN>>),
                         Fn("right", NaN, <<0, 2>>, <<Zero, One>>), Fn("left", Q(2), <<1, 2>>, <<Zero, Q(2)>>)>>
               f == base[(k \div Len(TRS)) + 1]
               n == Len(TRS)
           IN [fns |-> <<f>>,
               calls |-> Cat(LAMBDA j : LET u == TRS[((j - 1) \div n) + 1]  w == TRS[((j - 1) % n) + 1]  p == 3 * (j - 1) IN
                                << copy(ob(1)), layer(rs(p + 1), <<t, u>>), layer(rs(p + 1), <<w>>) >>, n * n)]
      [] P = "views" ->
           LET X == Block(IF QUICK THEN "t4" ELSE "s4", 4, k \div 2, CSide0(k))
           IN [fns |-> X, calls |-> Cat(LAMBDA x : << [op |-> "limit", a |-> ob(x), xs |-> Rng(-1, 5), side |-> "left"],
                                                      [op |-> "limit", a |-> ob(x), xs |-> Rng(-1, 5), side |-> "right"],
                                                      [op |-> "sample", a |-> ob(x), xs |-> <<4, 2, 2, 0, -1, 1, 3, 5>>],
                                                      [op |-> "views", a |-> ob(x)] >>, Len(X))]
      [] P = "ident" -> PairsP(IF QUICK THEN "s2" ELSE "s3", 6, k, CSide0(k), <<"ident">>, LAMBDA x, y, o : ident(ob(x), ob(y)))
      [] P = "truth" ->
           LET X == Block("b3", 16, k, CSide0(k))
           IN [fns |-> X, calls |-> [x \in 1 .. Len(X) |-> [op |-> "truth", a |-> ob(x)]]
                                    \o Cross(Rng(1, Len(X)), <<Zero, One, NaN>>, LAMBDA x, v : ident(ob(x), sca(v)))]
      [] P = "minimal" ->
           \* every operation on every pair; the results are compared with one another and with the operands
           LET f == On(CSide0(k), F("t2", k % N("t2")))  g == On(CSide0(k), F("t2", k \div N("t2")))
               A == AllOps(ob(1), ob(2)) \o AggOps(<<1, 2>>)
               n == Len(A)
           IN [fns |-> <<f, g>>,
               calls |-> A \o [j \in 1 .. n |-> ident(rs(j), rs(((j * 7 + k) % n) + 1))] \o [j \in 1 .. n |-> [op |-> "truth", a |-> rs(j)]]]
      [] P = "alias" ->
           \* operation, then layer on the result / operand; everything alive is observed after every call (snap_all)
           LET f == On(CSide0(k), F("t2", k % N("t2")))
               g == On(CSide0(k), <<F("t2", 5), F("t2", 13), Const("left", Zero), Const("left", One), Const("left", NaN), F("t2", 7)>>[(k \div N("t2")) + 1])
               A == AllOps(ob(1), ob(2)) \o AggOps(<<1, 2>>) \o AggOps(<<1>>)
               t1 == Triple(<<0>>, <<>>, One)   \* at a step point of the universe
               t2 == Triple(<<1>>, <<3>>, Q(2))
           IN [fns |-> <<f, g>>, snap |-> TRUE, grp |-> 4,
               calls |-> Cat(LAMBDA j : LET p == 4 * (j - 1) IN
                             << A[j], layer(rs(p + 1), IF j % 2 = 0 THEN <<t1>> ELSE <<t2>>),
                                layer(ob((j % 2) + 1), IF j % 2 = 0 THEN <<t2>> ELSE <<t1>>),
                                layer(ob((j % 2) + 1), IF j % 2 = 0 THEN <<Neg1(t2)>> ELSE <<Neg1(t1)>>) >>, Len(A))]
      [] P = "stale" ->
           LET f == On(CSide0(k), F("t2", k % N("t2")))
               t == TRS[(k \div N("t2")) + 1]
               Q0(j) == LET p == 4 * (j - 1) IN
                        << copy(ob(1)), Queries(rs(p + 1))[j], layer(rs(p + 1), <<t>>), Queries(rs(p + 1))[j] >>
           IN [fns |-> <<f>>, fresh |-> TRUE,
               calls |-> Cat(Q0, NQ) \o << layer(ob(1), <<t>>) >> \o Queries(ob(1)) \o << layer(ob(1), <<Neg1(t)>>) >> \o Queries(ob(1))]
      [] P = "laws" -> LawP(k)
      [] P = "forms" -> FormP(k, 12)
      [] P = "near" -> NearP(k)
      [] P = "walk" -> WalkP(k, IF QUICK THEN 18 ELSE 26)
      [] P = "history" -> HistoryP(k, IF QUICK THEN 3 ELSE 4)
      [] P = "sides" ->
           LET m == N("t1") + N("c0")
               q == k \div 4
               Z(j) == IF j < N("t1") THEN F("t1", j) ELSE F("c0", j - N("t1"))
               f == On(IF k % 2 = 0 THEN "left" ELSE "right", Z(q % m))
               g == On(IF (k \div 2) % 2 = 0 THEN "left" ELSE "right", Z(q \div m))
           IN [fns |-> <<f, g>>,
               calls |-> AllOps(ob(1), ob(2)) \o AggOps(<<1, 2>>) \o AggOps(<<1, 2, 1>>)
                         \o << cov("cov", ob(1), ob(2), W0(0, 3), 0, "pre"), cov("corr", ob(1), ob(2), W0(0, 3), 0, "pre"), cov("cov", ob(1), ob(2), W0(0, 3), 1, "pre"), cov("corr", ob(1), ob(2), <<<<>>, <<>>>>, 0, "pre"),
                               [op |-> "arrbin", f |-> "add", ids |-> <<1>>, b |-> <<"l", <<2>>>>, rev |-> FALSE],
                               [op |-> "arrbin", f |-> "lt", ids |-> <<1, 1>>, b |-> ob(2), rev |-> FALSE],
                               [op |-> "slices", a |-> ob(1), ivs |-> <<<<0, 1>>, <<1, 3>>>>, cl |-> "left"] >>
                         \o Resamples(1, f, <<<<0, 2>>, <<0, 1, 3>>>>)]
      [] P = "compose" ->
           LET n == N("t1")
               f == On(CSide0(k), F("t1", k % n))  g == On(CSide0(k), F("t1", (k \div n) % n))
               A == AllOps(ob(1), ob(2))
               j == (k \div (n * n)) + 1
           IN [fns |-> <<f, g>>,
               calls |-> <<A[j]>> \o AllOps(rs(1), ob(2)) \o [x \in 1 .. 13 |-> AllOps(ob(1), rs(1))[x]]
                         \o << op2("mask", ob(2), rs(1)), op2("where", ob(1), rs(1)), op2("fillf", ob(1), rs(1)),
                               layer(rs(1), <<Triple(<<1>>, <<>>, One)>>), bin("add", rs(1), ob(1)), [op |-> "views", a |-> rs(1)], stat("max", rs(1)) >>]
      [] P = "agg2" ->
           LET n == N("t2") IN
           [fns |-> <<On(CSide0(k), F("t2", k % n)), On(CSide0(k), F("t2", k \div n))>>, calls |-> AggOps(<<1, 2>>) \o AggOps(<<2, 1, 1>>)]
      [] P = "agg3" ->
           LET n == N("t1") IN
           [fns |-> <<On(CSide0(k), F("t1", k % n)), On(CSide0(k), Shift(F("t1", (k \div n) % n), 1)), On(CSide0(k), F("t1", k \div (n * n)))>>,
            calls |-> AggOps(<<1, 2, 3>>) \o <<agg("sum", <<3>>), agg("median", <<1, 3, 2, 2>>)>>]
      [] P = "arrops" ->
           LET n == N("t1")
               q == k \div 3
               f == On(CSide0(k), F("t1", q % n))  g == On(CSide0(k), Shift(F("t1", q \div n), k % 2))
               arr(o, b, rev) == [op |-> "arrbin", f |-> o, ids |-> <<1, 2>>, b |-> b, rev |-> rev]
           IN [fns |-> <<f, g>>,
               calls |-> CASE k % 3 = 0 -> Seqs(10, LAMBDA j : arr((ARITH \o RELS)[j], <<"l", <<2, 1>>>>, FALSE))
                           [] k % 3 = 1 -> Seqs(10, LAMBDA j : arr((ARITH \o RELS)[j], ob(2), FALSE))
                                           \o <<[op |-> "arrneg", ids |-> <<1, 2>>]>>
                           [] k % 3 = 2 -> Seqs(10, LAMBDA j : arr((ARITH \o RELS)[j], sca(One), FALSE))
                                           \o Seqs(4, LAMBDA j : arr(ARITH[j], sca(Q(2)), TRUE)) ]
      [] P = "table" ->
           LET n == N("t2")
               f == On(CSide0(k), F("t2", k \div 2))  g == On(CSide0(k), F("t2", (7 * (k \div 2) + 3) % n))
               tab(ids, xs, s) == [op |-> "table", ids |-> ids, xs |-> xs, side |-> s]
           IN [fns |-> <<f, g>>, calls |-> << tab(<<1, 2>>, <<0, 1, 2>>, ""), tab(<<2, 1, 1>>, <<2, -1, 3, 0>>, ""), tab(<<1, 2>>, <<2, 0, 1, 3>>, "left"), tab(<<1, 2>>, <<0, 2>>, "right"),
                                              tab(<<1>>, <<2>>, ""), tab(<<2>>, <<0>>, "left") >>]
      [] P = "covs" ->
           LET args == Cross(COVW, LAGS, LAMBDA w, g : <<w, g>>)
           IN PairsP("e2", 4, k, CSide0(k), <<1, 2, 3>>,
                LAMBDA x, y, j : LET z == args[((7 * x + 5 * y + 8 * j + k) % Len(args)) + 1]
                                 IN cov(IF (x + j + k) % 2 = 0 THEN "cov" ELSE "corr", ob(x), ob(y), z[1], z[2][1], z[2][2]))
      [] P = "covm" ->
           LET n == N("t2")
               ft(j) == UnFn("neg", FillScalar(F("t2", j % n), Q(2)))     \* everywhere defined
               m(o, ids, w) == [op |-> o, ids |-> ids, lo |-> w[1], hi |-> w[2]]
           IN [fns |-> <<On(CSide0(k), ft(k)), On(CSide0(k), ft(5 * k + 1)), On(CSide0(k), ft(11 * k + 7))>>,
               calls |-> << m("covm", <<1, 2, 3>>, W0(0, 3)), m("corrm", <<3, 1>>, W0(-1, 3)), m("covm", <<2, 2>>, W0(0, 4)), m("corrm", <<1, 2, 3>>, W0(0, 2)),
                           \* bounds left open: the domains bound the window; repeated members
                           win("clip", ob(1), W0(0, 3)), win("clip", ob(2), W0(-1, 2)), win("clip", ob(3), W0(0, 4)),
                           m("covm", <<1005, 1005, 1006>>, <<<<>>, <<>>>>), m("corrm", <<1006, 1007, 1007, 1005>>, <<<<>>, <<>>>>), m("covm", <<1007, 2, 1006>>, <<<<1>>, <<>>>>), m("corrm", <<1005, 1005, 1007>>, <<<<>>, <<2>>>>) >>]
      [] P = "shift" ->
           LET X == Block("s3", 2, k, CSide0(k)) IN
           [fns |-> X, calls |-> Cross3(Rng(1, Len(X)), Rng(-3, 3), <<"shift", "diff">>, LAMBDA x, d, o : [op |-> o, a |-> ob(x), d |-> d])]
      [] P = "roll" ->
           [fns |-> <<On(CSide0(k), F(IF QUICK THEN "t3" ELSE "s3", k))>>, calls |-> Cross(Rolls, RollW, LAMBDA w, z : roll(ob(1), w, z))]

Parts ==
    CASE PROP = "C01" -> <<"arith", "arithsc", "laws", "walk">>
      [] PROP = "C02" -> <<"layer", "layer3", "walk">>
      [] PROP = "C03" -> <<"views", "walk">>
      [] PROP = "C04" -> <<"rel", "relsc", "laws", "walk">>
      [] PROP = "C05" -> <<"logic", "logicsc", "laws", "walk">>
      [] PROP = "C06" -> <<"restrict", "clip", "laws", "walk">>
      [] PROP = "C07" -> <<"fillf", "fills", "laws", "walk">>
      [] PROP = "C08" -> <<"stats", "statwin", "walk">>
      [] PROP = "C09" -> <<"dist", "hist", "walk">>
      [] PROP = "C10" -> <<"vir", "walk">>
      [] PROP = "C11" -> <<"slice", "resample", "walk">>
      [] PROP = "C12" -> <<"ident", "near", "truth", "minimal", "forms", "laws", "walk">>
      [] PROP = "C13" -> <<"alias", "forms", "history", "walk">>
      [] PROP = "C14" -> <<"stale", "forms", "history", "walk">>
      [] PROP = "C15" -> <<"sides", "walk">>
      [] PROP = "C16" -> <<"compose", "forms", "history", "walk">>
      [] PROP = "C17" -> <<"compose", "history", "slice", "covs", "roll", "views", "dist", "agg3", "layer3", "vir", "stats", "walk">>
      [] PROP = "C18" -> <<"agg2", "agg3", "arrops", "table", "covm", "laws", "walk">>
      [] PROP = "C19" -> <<"covs", "covm", "walk">>
      [] PROP = "C20" -> <<"shift", "roll", "laws", "walk">>

\* C17 runs every program twice (in two domains): fewer of them
Thin == IF PROP = "C17" THEN (IF QUICK THEN 24 ELSE 8) ELSE 1
Hash(k) == ((k * 40503) % 65521) \div 7
Chosen(P) == LET s == Stride(P) * Thin IN SelectSeq(Rng(0, Count(P) - 1), LAMBDA k : s = 1 \/ Hash(k) % s = OFFSET % s)
Programs == Cat(LAMBDA i : LET P == Parts[i]  ks == Chosen(P) IN
                   [j \in 1 .. Len(ks) |-> [part |-> P, k |-> ks[j], prog |-> Prog(P, ks[j])]], Len(Parts))


ASSUME ndJsonSerialize(IOEnv.DUMP, Programs)

\* no behaviour: TLC only evaluates the assumption
VARIABLE none
Spec == none = TRUE /\ [][FALSE]_none
=============================================================================
