-------------------------------- MODULE Impl --------------------------------
(***************************************************************************)
(* The design of the implementation: how a Stairs object represents its    *)
(* function, and that the representation refines the step functions of     *)
(* StepFn.                                                                 *)
(*                                                                         *)
(*   o = [c, i,            closed side and initial value                   *)
(*        has,             FALSE: no data (a step-free function)           *)
(*        x,               step points                                     *)
(*        vv, v,           is the column of values valid; the column       *)
(*        vd, d,           is the column of step changes valid; the column *)
(*        cache]           <<>> or <<the function seen by the last query>> *)
(*                                                                         *)
(* Step changes at a defined point are relative to the last defined value  *)
(* before it (to zero if there is none) and NaN at an undefined point.     *)
(* Reads materialise the missing column in place; layering works on step   *)
(* changes, drops the values and forgets the cached statistics; arithmetic *)
(* works on step changes when both operands are defined everywhere and one *)
(* has them, and on values otherwise; masks, clips, fills, comparisons and *)
(* logic work on values.                                                   *)
(*                                                                         *)
(* Every object carries the function it has to denote (fn), maintained by  *)
(* the operators of StepFn only.  Refines says that every object of every  *)
(* reachable heap denotes it, minimally, in every valid column, with no    *)
(* stale cache.  Init is not one state: it is every heap of two objects    *)
(* over a small universe in every combination of columns and cache which   *)
(* satisfies the representation invariant, so the exhaustive check of one  *)
(* step is the check that Refines is inductive on that universe; longer    *)
(* histories are checked by simulation.                                    *)
(*                                                                         *)
(* The module describes the algorithms, not the source text, and no check  *)
(* of the real code depends on it: it is what makes sure that the design   *)
(* (two lazily built columns, a cache, redundancy removal that looks only  *)
(* at neighbours) is sound, and which forms have to be covered by the      *)
(* programs replayed into the code (part "forms" of Gen.tla).              *)
(***************************************************************************)
EXTENDS StepFn, IOUtils

SIM == IOEnv.SIM = "yes"
QUICK == IOEnv.TIER = "quick"
DEPTH == atoi(IOEnv.DEPTH)
STRIDE == atoi(IOEnv.STRIDE)      \* 1: every pair of functions of the universe initially; else a part of them
OFFSET == atoi(IOEnv.OFFSET)
Vals == IF QUICK THEN <<NaN, Zero, One>> ELSE <<NaN, Zero, One, Q(-1)>>
Times == <<0, 2>>
MaxAbs == 40

\* ---------------------------------------------------------------- columns
Defined(s) == \A k \in 1 .. Len(s) : ~IsNaN(s[k])
\* the last defined value before position k of i, v[1], v[2], ..; zero if there is none
RECURSIVE LastDef(_, _, _)
LastDef(i, v, k) == IF k = 0 THEN (IF IsNaN(i) THEN Zero ELSE i) ELSE IF IsNaN(v[k]) THEN LastDef(i, v, k - 1) ELSE v[k]
DeltasOf(i, v) == [k \in 1 .. Len(v) |-> IF IsNaN(v[k]) THEN NaN ELSE Sub(v[k], LastDef(i, v, k - 1))]
RECURSIVE Sum0(_, _)
Sum0(d, k) == IF k = 0 THEN Zero ELSE IF IsNaN(d[k]) THEN Sum0(d, k - 1) ELSE Add(Sum0(d, k - 1), d[k])
ValuesOf(i, d) == [k \in 1 .. Len(d) |-> IF IsNaN(d[k]) THEN NaN ELSE Add(Sum0(d, k), IF IsNaN(i) THEN Zero ELSE i)]

Obj(c, i, has, x, vv, v, vd, d) == [c |-> c, i |-> i, has |-> has, x |-> x, vv |-> vv, v |-> v, vd |-> vd, d |-> d, cache |-> <<>>]
Bare(c, i) == Obj(c, i, FALSE, <<>>, FALSE, <<>>, FALSE, <<>>)
ByValues(c, i, x, v) == Obj(c, i, TRUE, x, TRUE, v, FALSE, <<>>)
ByDeltas(c, i, x, d) == Obj(c, i, TRUE, x, FALSE, <<>>, TRUE, d)

GetValues(o) == IF ~o.has \/ o.vv THEN o ELSE [o EXCEPT !.vv = TRUE, !.v = ValuesOf(o.i, o.d)]
GetDeltas(o) == IF ~o.has \/ o.vd THEN o ELSE [o EXCEPT !.vd = TRUE, !.d = DeltasOf(o.i, o.v)]
HasNa(o) == IsNaN(o.i) \/ (o.vv /\ ~Defined(o.v)) \/ (o.vd /\ ~Defined(o.d))
Forget(o) == [o EXCEPT !.cache = <<>>]

Keep(o, ks) ==
    LET sub(s) == [j \in 1 .. Len(ks) |-> s[ks[j]]]
    IN IF ks = <<>> THEN Bare(o.c, o.i)
       ELSE [o EXCEPT !.x = sub(o.x), !.v = IF o.vv THEN sub(o.v) ELSE o.v, !.d = IF o.vd THEN sub(o.d) ELSE o.d]
\* looks at neighbours only
Reduce(o) ==
    IF ~o.has THEN o
    ELSE LET idx == [k \in 1 .. Len(o.x) |-> k]
             sameD(k) == (k > 1 /\ IsNaN(o.d[k]) /\ IsNaN(o.d[k - 1])) \/ o.d[k] = Zero
             sameV(k) == IF k = 1 THEN o.v[1] = o.i ELSE o.v[k] = o.v[k - 1]
         IN IF o.vd THEN Keep(o, SelectSeq(idx, LAMBDA k : ~sameD(k))) ELSE Keep(o, SelectSeq(idx, LAMBDA k : ~sameV(k)))

\* the function an object denotes
Abs0(o) == Fn(o.c, o.i, o.x, IF ~o.has THEN <<>> ELSE IF o.vv THEN o.v ELSE ValuesOf(o.i, o.d))

Sound(o) ==
    /\ ~o.has => o.x = <<>> /\ ~o.vv /\ ~o.vd
    /\ o.has => /\ o.x # <<>> /\ (o.vv \/ o.vd)
                /\ o.vv => Len(o.v) = Len(o.x)
                /\ o.vd => Len(o.d) = Len(o.x)
                /\ o.vv /\ o.vd => ValuesOf(o.i, o.d) = o.v /\ DeltasOf(o.i, o.v) = o.d
                /\ ~o.vv => ~HasNa(o)       \* step changes alone only where defined everywhere
    /\ Minimal(Abs0(o))
    /\ o.cache # <<>> => o.cache[1] = Abs0(o)

\* -------------------------------------------------------------- operations
\* on values: union of the step points, values carried forward
Carry(o, x) == LET g == Abs0(o) IN [k \in 1 .. Len(x) |-> LimR(g, x[k])]
Values2(o, a, b, side) ==
    LET x == Union2(a.x, b.x)
        u == Carry(a, x)
        w == Carry(b, x)
    IN Reduce(ByValues(side, Bin(o, a.i, b.i), x, [k \in 1 .. Len(x) |-> Bin(o, u[k], w[k])]))
\* on step changes: added where both have one
Deltas2(o, a, b) ==
    LET p == GetDeltas(a)
        q == GetDeltas(b)
        x == Union2(p.x, q.x)
        at(r, t) == IF \E k \in 1 .. Len(r.x) : r.x[k] = t THEN r.d[CHOOSE k \in 1 .. Len(r.x) : r.x[k] = t] ELSE Zero
    IN Reduce(ByDeltas(a.c, Bin(o, a.i, b.i), x, [k \in 1 .. Len(x) |-> Bin(o, at(p, x[k]), at(q, x[k]))]))
\* one operand is a constant k: the columns that are valid are moved, unless undefined pieces make changes relative to zero
MoveK(o, a, k, rev) ==
    LET side == a.c
        i == IF rev THEN Bin(o, k, a.i) ELSE Bin(o, a.i, k)
        f(y) == IF rev THEN Bin(o, k, y) ELSE Bin(o, y, k)
        g(y) == IF rev /\ o = "sub" THEN Neg(y) ELSE y
    IN IF ~a.has \/ IsNaN(k) THEN Bare(side, i)
       ELSE IF HasNa(a) THEN LET q == GetValues(a) IN ByValues(side, i, q.x, [j \in 1 .. Len(q.x) |-> f(q.v[j])])
       ELSE [a EXCEPT !.i = i, !.cache = <<>>, !.v = IF a.vv THEN [j \in 1 .. Len(a.x) |-> f(a.v[j])] ELSE a.v,
                      !.d = IF a.vd THEN [j \in 1 .. Len(a.x) |-> g(a.d[j])] ELSE a.d]
AddSub(o, a, b) ==
    IF ~b.has THEN MoveK(o, a, b.i, FALSE)
    ELSE IF ~a.has THEN MoveK(o, b, a.i, TRUE)
    ELSE IF HasNa(a) \/ HasNa(b) THEN Values2(o, a, b, a.c)
    ELSE IF a.vd \/ b.vd THEN Deltas2(o, a, b)
    ELSE Values2(o, a, b, a.c)
\* every other binary operator: on values, a constant being carried as such
ByVals(o, a, b) ==
    IF ~a.has /\ ~b.has THEN Bare(a.c, Bin(o, a.i, b.i))
    ELSE Values2(o, a, b, IF a.has THEN a.c ELSE b.c)
Binary(o, a, b) == IF o \in {"add", "sub"} THEN AddSub(o, a, b) ELSE ByVals(o, a, b)

Negated(a) == [a EXCEPT !.i = Neg(a.i), !.cache = <<>>,
                        !.v = [k \in 1 .. Len(a.v) |-> Neg(a.v[k])], !.d = [k \in 1 .. Len(a.d) |-> Neg(a.d[k])]]
PerValue(o, a) ==
    IF o = "neg" THEN Negated(a)
    ELSE IF ~a.has THEN Bare(a.c, UnVal(o, a.i))
    ELSE LET q == GetValues(a) IN Reduce(ByValues(a.c, UnVal(o, a.i), q.x, [k \in 1 .. Len(q.x) |-> UnVal(o, q.v[k])]))

\* a mask is zero or undefined, and is added
Maskified(m, inverse) ==
    LET keep(y) == ~IsNaN(y) /\ (IF inverse THEN y # Zero ELSE y = Zero)
        z(y) == IF keep(y) THEN Zero ELSE NaN
        q == GetValues(m)
    IN IF ~m.has THEN Bare(m.c, z(m.i)) ELSE Reduce(ByValues(m.c, z(m.i), q.x, [k \in 1 .. Len(q.x) |-> z(q.v[k])]))
Masked(a, m, inverse) ==
    IF ~m.has THEN (IF ~IsNaN(m.i) /\ (IF inverse THEN m.i # Zero ELSE m.i = Zero) THEN Forget(a) ELSE Bare(a.c, NaN))
    ELSE AddSub("add", Maskified(m, inverse), a)

\* slices the values and moves or adds the end points
Clipped(a, lo, hi) ==
    LET q == GetValues(a)
        left == IF Missing(lo) THEN 0 ELSE CntLe(q.x, lo[1], 0, Len(q.x))            \* pieces begun at lo
        right == IF Missing(hi) THEN Len(q.x) ELSE CntLe(q.x, hi[1] - 1, 0, Len(q.x))
        from == IF left = 0 THEN 1 ELSE left
        x0 == SubSeq(q.x, from, right)
        v0 == SubSeq(q.v, from, right)
        x1 == IF Missing(lo) THEN x0 ELSE IF left = 0 THEN <<lo[1]>> \o x0 ELSE [x0 EXCEPT ![1] = lo[1]]
        v1 == IF Missing(lo) \/ left > 0 THEN v0 ELSE <<a.i>> \o v0
        x2 == IF Missing(hi) THEN x1 ELSE Append(x1, hi[1])
        v2 == IF Missing(hi) THEN v1 ELSE Append(v1, NaN)
    IN IF Missing(lo) /\ Missing(hi) THEN Forget(a)
       ELSE Reduce(ByValues(a.c, IF Missing(lo) THEN a.i ELSE NaN, x2, v2))

Filled(a, k) ==
    LET z(y) == IF IsNaN(y) THEN k ELSE y
        q == GetValues(a)
    IN IF ~a.has THEN Bare(a.c, z(a.i)) ELSE Reduce(ByValues(a.c, z(a.i), q.x, [j \in 1 .. Len(q.x) |-> z(q.v[j])]))
FilledBy(a, m) ==
    LET f == Abs0(a)
        val(k) == IF m = "ffill" THEN PrevDef(f, k) ELSE NextDef(f, k)
    IN IF ~a.has THEN Forget(a) ELSE Reduce(ByValues(a.c, val(0), a.x, [k \in 1 .. Len(a.x) |-> val(k)]))
\* f.fillna(0) + g.fillna(0) * isna(f), undefined where both are
FilledWith(a, b) ==
    LET sum == AddSub("add", Filled(a, Zero), ByVals("mul", Filled(b, Zero), PerValue("isna", a)))
        both == ByVals("and", PerValue("isna", a), PerValue("isna", b))
    IN [Masked(sum, both, FALSE) EXCEPT !.c = IF ~a.has /\ b.has THEN b.c ELSE a.c]
Shifted(a, t) == [Forget(a) EXCEPT !.x = [k \in 1 .. Len(a.x) |-> a.x[k] + t]]

\* layering, in place.  One interval: step changes are edited one by one
Put(o, t, w) ==       \* add w to the change at t
    LET n == CntLe(o.x, t, 0, Len(o.x))
        hit == n > 0 /\ o.x[n] = t
        d == IF hit THEN [o.d EXCEPT ![n] = Add(@, w)] ELSE SubSeq(o.d, 1, n) \o <<w>> \o SubSeq(o.d, n + 1, Len(o.d))
        x == IF hit THEN o.x ELSE SubSeq(o.x, 1, n) \o <<t>> \o SubSeq(o.x, n + 1, Len(o.x))
        j == IF hit THEN n ELSE n + 1
    IN IF d[j] = Zero THEN [o EXCEPT !.x = SubSeq(x, 1, j - 1) \o SubSeq(x, j + 1, Len(x)), !.d = SubSeq(d, 1, j - 1) \o SubSeq(d, j + 1, Len(d))]
       ELSE [o EXCEPT !.x = x, !.d = d]
RECURSIVE Insert(_, _, _)
Insert(o, ts, k) == IF k = 0 THEN o
    ELSE LET q == Insert(o, ts, k - 1) t == ts[k]
             r == IF Missing(t.s) THEN [q EXCEPT !.i = Add(@, t.v)] ELSE Put(q, t.s[1], t.v)
         IN IF Missing(t.e) THEN r ELSE Put(r, t.e[1], Neg(t.v))
Settled(q) == IF q.x = <<>> THEN Bare(q.c, q.i) ELSE ByDeltas(q.c, q.i, q.x, q.d)
LayeredPlain(a, ts) ==
    IF Len(ts) = 1 /\ ~Missing(ts[1].s) /\ ts[1].s = ts[1].e THEN Forget(a)
    ELSE IF Len(ts) = 1 THEN Settled(Insert(GetDeltas(a), ts, 1))
    \* several: the changes of all, grouped, those which vanish removed afterwards
    ELSE LET x == Union2(a.x, Sorted(LayerPts(ts)))
             q == GetDeltas(a)
             at(t) == IF \E k \in 1 .. Len(q.x) : q.x[k] = t THEN q.d[CHOOSE k \in 1 .. Len(q.x) : q.x[k] = t] ELSE Zero
             up(t) == SumV([k \in 1 .. Len(ts) |-> IF ts[k].s = <<t>> THEN ts[k].v ELSE Zero])
             dn(t) == SumV([k \in 1 .. Len(ts) |-> IF ts[k].e = <<t>> THEN ts[k].v ELSE Zero])
             i == Add(a.i, SumV([k \in 1 .. Len(ts) |-> IF Missing(ts[k].s) THEN ts[k].v ELSE Zero]))
         IN IF x = <<>> THEN Bare(a.c, i)
            ELSE Reduce(ByDeltas(a.c, i, x, [k \in 1 .. Len(x) |-> Add(at(x[k]), Sub(up(x[k]), dn(x[k])))]))
Layered(a, ts) ==
    IF ~a.has /\ IsNaN(a.i) THEN a
    ELSE IF a.has /\ HasNa(a) THEN Forget(AddSub("add", a, LayeredPlain(Bare(a.c, Zero), ts)))
    ELSE LayeredPlain(a, ts)

\* a statistic: computed from the values once, then from the cache
Queried(a) == LET q == GetValues(a) IN IF q.cache # <<>> THEN q ELSE [q EXCEPT !.cache = <<Abs0(q)>>]
Answer(a) == Queried(a).cache[1]

\* values against values if both have them, step changes against step changes otherwise
Identical(a, b) ==
    /\ a.i = b.i
    /\ a.has = b.has
    /\ a.has => IF a.vv /\ b.vv THEN a.x = b.x /\ a.v = b.v
                ELSE a.x = b.x /\ GetDeltas(a).d = GetDeltas(b).d

\* what reading does to an operand (results of a copy do not reach it)
Read(o) == GetValues(o)
ReadD(o) == GetDeltas(o)

\* ------------------------------------------------------------- the machine
Digit(k, b, j) == (k \div (b ^ j)) % b
UFn(k, c) == LET b == Len(Vals) IN Canon(Fn(c, Vals[Digit(k, b, 0) + 1], Times, [j \in 1 .. Len(Times) |-> Vals[Digit(k, b, j) + 1]]))
Forms(f) ==
    IF f.p = <<>> THEN {Bare(f.c, f.i)}
    ELSE LET d == DeltasOf(f.i, f.v)
         IN { Obj(f.c, f.i, TRUE, f.p, TRUE, f.v, FALSE, <<>>), Obj(f.c, f.i, TRUE, f.p, TRUE, f.v, TRUE, d) }
            \cup (IF EverywhereDefined(f) THEN {ByDeltas(f.c, f.i, f.p, d)} ELSE {})
WithCache(f) == Forms(f) \cup { [o EXCEPT !.cache = <<f>>] : o \in { q \in Forms(f) : q.vv \/ ~q.has } }

VARIABLES heap, depth      \* heap: sequence of [o |-> representation, fn |-> the function it has to denote]
Cell(o, f) == [o |-> o, fn |-> f]
NU == Len(Vals) ^ (Len(Times) + 1)
Flat(j, c) == IF HasSteps(UFn(j, c)) THEN {} ELSE {UFn(j, IF c = "left" THEN "right" ELSE "left")}
Chosen(j, k) == STRIDE = 1 \/ (j * 31 + k * 17) % STRIDE = OFFSET % STRIDE
Init == /\ depth = 0
        /\ \E c \in {"left", "right"} : \E j, k \in 0 .. NU - 1 :
              /\ Chosen(j, k)
              /\ (STRIDE = 1 \/ ((j + k) % 2 = 0) = (c = "left"))
              \* a function without steps may have the other side
              /\ \E f \in {UFn(j, c)} \cup Flat(j, c) : \E g \in {UFn(k, c)} \cup Flat(k, c) :
                    \E a \in WithCache(f) : \E b \in Forms(g) : heap = <<Cell(a, f), Cell(b, g)>>
\* in simulation a successor is drawn, in model checking all are taken
Some(S) == IF SIM THEN {RandomElement(S)} ELSE S
Dest == IF Len(heap) < 3 THEN {3} ELSE 1 .. 3
\* read: what the call leaves in the columns of the operands; res: its result
Store(h, d, cell) == IF d > Len(h) THEN Append(h, cell) ELSE [h EXCEPT ![d] = cell]
Op1(j, rd(_), res, f) == \E d \in Some(Dest) : heap' = Store([heap EXCEPT ![j].o = rd(@)], d, Cell(res, f))
Op2(j, k, rd(_), res, f) == \E d \in Some(Dest) : heap' = Store([heap EXCEPT ![k].o = rd(@)], d, Cell(res, f))
Ks == {Zero, One, Q(-1), NaN}
OptT == {<<>>, <<0>>, <<1>>, <<2>>}
Triples == { Triple(s, e, v) : s \in OptT, e \in {<<>>, <<1>>, <<2>>}, v \in {One, Q(-1)} }
Pairs == { <<t, u>> : t \in Triples, u \in { Triple(<<1>>, <<>>, Q(-1)), Triple(<<>>, <<2>>, One), Triple(<<0>>, <<2>>, One) } }
Small(f) == \A k \in 0 .. Len(f.p) : Abs(At(f, k)[1]) <= MaxAbs /\ At(f, k)[2] <= MaxAbs
FAt(j) == heap[j].fn
OAt(j) == heap[j].o

DoBinary == \E j \in Some(1 .. Len(heap)) : \E k \in Some(1 .. Len(heap)) : \E o \in Some(BinOps) :
    ~Mismatch(FAt(j), FAt(k)) /\ Op2(j, k, LAMBDA q : IF o \in {"add", "sub"} THEN ReadD(q) ELSE Read(q), Binary(o, OAt(j), OAt(k)), BinFn(o, FAt(j), FAt(k)))
DoScalar == \E j \in Some(1 .. Len(heap)) : \E k \in Some(Ks) : \E o \in Some(BinOps) : \E rev \in Some(BOOLEAN) :
    LET g == Const(FAt(j).c, k) b == Bare(FAt(j).c, k)
    IN IF rev THEN Op1(j, Read, Binary(o, b, OAt(j)), BinFn(o, g, FAt(j)))
       ELSE Op1(j, Read, Binary(o, OAt(j), b), BinFn(o, FAt(j), g))
DoUnary == \E j \in Some(1 .. Len(heap)) : \E o \in Some(UnOps) : Op1(j, Read, PerValue(o, OAt(j)), UnFn(o, FAt(j)))
DoMask == \E j \in Some(1 .. Len(heap)) : \E k \in Some(1 .. Len(heap)) : ~Mismatch(FAt(j), FAt(k)) /\
    \/ Op2(j, k, Read, Masked(OAt(j), OAt(k), FALSE), [Mask(FAt(j), FAt(k)) EXCEPT !.c = IF HasSteps(FAt(k)) /\ ~HasSteps(FAt(j)) THEN FAt(k).c ELSE FAt(j).c])
    \/ Op2(j, k, Read, Masked(OAt(j), OAt(k), TRUE), [Where(FAt(j), FAt(k)) EXCEPT !.c = IF HasSteps(FAt(k)) /\ ~HasSteps(FAt(j)) THEN FAt(k).c ELSE FAt(j).c])
DoClip == \E j \in Some(1 .. Len(heap)) : \E lo \in Some(OptT) : \E hi \in Some(OptT) :
    (IF Missing(lo) \/ Missing(hi) THEN TRUE ELSE lo[1] < hi[1]) /\ Op1(j, Read, Clipped(OAt(j), lo, hi), Clip(FAt(j), lo, hi))
DoFill == \E j \in Some(1 .. Len(heap)) :
    \/ \E k \in Some(Ks) : Op1(j, Read, Filled(OAt(j), k), FillScalar(FAt(j), k))
    \/ \E m \in Some({"ffill", "bfill"}) : Op1(j, Read, FilledBy(OAt(j), m), FillMethod(FAt(j), m))
    \/ \E k \in Some(1 .. Len(heap)) : ~Mismatch(FAt(j), FAt(k)) /\ Op2(j, k, Read, FilledWith(OAt(j), OAt(k)), FillFn(FAt(j), FAt(k)))
DoShift == \E j \in Some(1 .. Len(heap)) : \E t \in Some({-1, 1}) : Op1(j, LAMBDA o : o, Shifted(OAt(j), t), Shift(FAt(j), t))
DoCopy == \E j \in Some(1 .. Len(heap)) : Op1(j, LAMBDA o : o, Forget(OAt(j)), FAt(j))
DoLayer == \E j \in Some(1 .. Len(heap)) :
    \/ \E t \in Some(Triples) : heap' = [heap EXCEPT ![j] = Cell(Layered(@.o, <<t>>), Layer(@.fn, <<t>>))]
    \/ \E p \in Some(Pairs) : heap' = [heap EXCEPT ![j] = Cell(Layered(@.o, p), Layer(@.fn, p))]
DoRead == \E j \in Some(1 .. Len(heap)) : \/ heap' = [heap EXCEPT ![j].o = Read(@)]
                                    \/ heap' = [heap EXCEPT ![j].o = ReadD(@)]
                                    \/ heap' = [heap EXCEPT ![j].o = Queried(@)]
Next == /\ depth < DEPTH
        /\ depth' = depth + 1
        /\ DoBinary \/ DoScalar \/ DoUnary \/ DoMask \/ DoClip \/ DoFill \/ DoShift \/ DoCopy \/ DoLayer \/ DoRead
Spec == Init /\ [][Next]_<<heap, depth>>

Bounded == \A k \in 1 .. Len(heap) : Small(heap[k].fn) /\ Len(heap[k].fn.p) <= 6
Refines == \A k \in 1 .. Len(heap) :
    /\ Sound(heap[k].o)
    /\ heap[k].o.c \in Sides
    /\ SameFn(Abs0(heap[k].o), heap[k].fn)
    /\ HasSteps(heap[k].fn) => heap[k].o.c = heap[k].fn.c
Fresh == \A k \in 1 .. Len(heap) : SameFn(Answer(heap[k].o), heap[k].fn)
Decides == \A j, k \in 1 .. Len(heap) : Identical(heap[j].o, heap[k].o) = SameFn(heap[j].fn, heap[k].fn)
=============================================================================
