-------------------------------- MODULE Trace --------------------------------
(***************************************************************************)
(* Trace validation.  The input file is newline-delimited JSON: one line   *)
(* per session, a session being a sequence of logged public calls          *)
(*    e = [op |-> .., arguments.., res |-> observed outcome,               *)
(*         snap |-> <<id, observed function>> for live objects]            *)
(* Every session is one initial state; a step consumes one logged call,    *)
(* must be the Staircase step with that outcome, and otherwise ends the    *)
(* session with the set of failing clauses.  Verdicts are total.           *)
(***************************************************************************)
EXTENDS Staircase, Json, IOUtils

Sessions == ndJsonDeserialize(IOEnv.TRACE_FILE)

VARIABLES sid, l, heap, verdict
vars == <<sid, l, heap, verdict>>

\* ------------------------------------------------------- observed functions
\* o = [c, i, p, v, z]; z = labels carry the domain's type / timezone
FnClauses(o, f) ==
    IF ~(\A k \in 1 .. Len(o.v) : IsVal(o.v[k])) \/ ~IsVal(o.i) \/ Len(o.p) # Len(o.v) THEN {"value"}
    ELSE IF ~Strict(o.p) THEN {"minimal", "value"}
    ELSE (IF SameFn(Canon(o), f) THEN {} ELSE {"value"})
         \cup (IF Minimal(o) THEN {} ELSE {"minimal"})
         \cup (IF o.c = f.c THEN {} ELSE {"closed"})
         \cup (IF o.z THEN {} ELSE {"labels"})

FrameClauses(h, snap) ==
    UNION { (IF FnClauses(snap[k][2], h[snap[k][1]]) \cap {"value", "closed", "minimal"} = {}
             THEN {} ELSE {"frame"}) : k \in 1 .. Len(snap) }

ViewClauses(o, x) ==
    (IF o.n = x.n THEN {} ELSE {"v:number_of_steps"})
    \cup (IF o.p = x.p THEN {} ELSE {"v:step_points"})
    \cup (IF o.vp = x.p /\ o.v = x.v THEN {} ELSE {"v:step_values"})
    \cup (IF o.i = x.i THEN {} ELSE {"v:initial_value"})
    \cup (IF o.tile /\ o.fs = x.fs /\ o.fe = x.fe /\ o.fv = x.fv THEN {} ELSE {"v:to_frame"})
    \cup (IF o.cp = x.cp /\ (x.cs = <<>> \/ o.cs = x.cs) THEN {} ELSE {"v:step_changes"})

\* ------------------------------------------------------- observed statistics
\* a computed number is logged as <<n, d>>, or as an interval of rounding errors
Agree(o, w) ==
    IF Len(o) = 2 THEN o = w
    ELSE ~IsNaN(w) /\ o[2] > 0 /\ o[4] > 0 /\ Le(<<o[1], o[2]>>, w) /\ Le(w, <<o[3], o[4]>>)
AgreeL(o, w) == Len(o) = Len(w) /\ \A k \in 1 .. Len(w) : Agree(o[k], w[k])
AgreeM(o, w) == Len(o) = Len(w) /\ \A k \in 1 .. Len(w) : AgreeL(o[k], w[k])
AgreeC(o, w) == o[1] = w[1] /\ Agree(o[2], w[2])
AgreeX(op, o, w) ==
    CASE op \in {"stat", "aggstat", "cov"} -> Agree(o, w)
      [] op \in {"ecdf", "pct", "frac", "quant", "describe", "slstat"} -> AgreeL(o, w)
      [] op \in {"slhist", "covm"} -> AgreeM(o, w)
      [] op = "corr" -> AgreeC(o, w)
      [] op = "corrm" -> Len(o) = Len(w) /\ \A j \in 1 .. Len(w) : Len(o[j]) = Len(w[j])
                         /\ \A k \in 1 .. Len(w[j]) : AgreeC(o[j][k], w[j][k])
      [] op = "hist" -> o.b = w.b /\ AgreeL(o.x, w.x)
      [] op = "roll" -> o.x = w.x /\ AgreeL(o.y, w.y)
      [] OTHER -> o = w

BadClauses(o) == { o.bad[k] : k \in 1 .. Len(o.bad) }

\* the set of failing clauses of logged call e in heap h, r = Outcome(h, e)
Judge(h, e, r) ==
    LET o == e.res
        frame == FrameClauses(After(h, r), e.snap) \cup BadClauses(o)
    IN CASE r.k = "any" -> frame
         [] r.k = "err" -> (IF o.k = "err" /\ o.e = "ClosedMismatchError" THEN {} ELSE {"noraise"}) \cup frame
         [] o.k = "err" -> IF o.e = "ClosedMismatchError" THEN {"raised", "mismatch"} ELSE {"raised"}
         [] o.k = "odd" -> {"kind"}
         [] r.k = "quiet" -> frame
         [] r.k = "new" -> IF o.k # "new" THEN {"kind"}
                           ELSE FnClauses(o.f, r.f) \cup (IF o.fresh THEN {} ELSE {"alias"}) \cup frame
         [] r.k = "news" -> IF o.k # "news" THEN {"kind"}
                            ELSE IF Len(o.fs) # Len(r.fs) THEN {"value"}
                            ELSE UNION { FnClauses(o.fs[k], r.fs[k]) : k \in 1 .. Len(r.fs) }
                                 \cup (IF o.fresh THEN {} ELSE {"alias"}) \cup frame
         [] r.k = "mut" -> IF o.k # "mut" THEN {"kind"}
                           ELSE FnClauses(o.f, r.f) \cup (IF o.self THEN {} ELSE {"ident"}) \cup frame
         [] o.k # "val" -> {"kind"}
         [] o.bad # <<>> -> frame
         [] r.k = "in" -> (IF o.x \in r.s THEN {} ELSE {"value"}) \cup frame
         [] r.k = "ins" -> (IF Len(o.x) = Len(r.ss) /\ \A j \in 1 .. Len(r.ss) :
                                  r.ss[j] = {} \/ o.x[j] \in r.ss[j]
                            THEN {} ELSE {"value"}) \cup frame
         [] r.k = "val" -> (IF e.op = "views" THEN ViewClauses(o.x, r.x)
                            ELSE IF AgreeX(e.op, o.x, r.x) THEN {} ELSE {"value"}) \cup frame

(* Two runs of one program, in two domains: the call e of this run carries the same call e.ref of the reference run.   *)
(* The runs are images of one another iff each call has the outcome prescribed in both, or deviates in both alike.     *)
IsQuery(o) == o.k \in {"val", "odd"}
SameRes(o, w) ==
    /\ o.k = w.k
    /\ o.k = "err" => o.e = w.e
    /\ o.k \in {"new", "mut"} => [o.f EXCEPT !.z = TRUE] = [w.f EXCEPT !.z = TRUE] /\ o.f.z = w.f.z
    /\ o.k = "news" => o.fs = w.fs
JudgePair(h, e, r) ==
    LET c == Judge(h, e, r)
        rr == Outcome(h, e.ref)
        cr == Judge(h, e.ref, rr)
    IN IF c = cr
       THEN IF r.k = "any" \/ rr.k = "any" \/ c # {}
            THEN (IF SameRes(e.res, e.ref.res) \/ r.k # rr.k THEN (IF c = {} THEN {} ELSE {"cut"}) ELSE {"domain"})
            ELSE {}
       ELSE c \cup {"domain"}

JudgeAll(h, e, r) == IF "ref" \in DOMAIN e THEN JudgePair(h, e, r) ELSE Judge(h, e, r)

\* a call the specification leaves free: adopt what was observed, or stop
AdoptFns(o) == IF o.k = "new" THEN <<o.f>> ELSE IF o.k = "news" THEN o.fs ELSE <<>>
CanAdopt(o) == \A k \in 1 .. Len(AdoptFns(o)) : WellFormed(AdoptFns(o)[k])
Adopt(h, o) == h \o [k \in 1 .. Len(AdoptFns(o)) |->
                        Canon(Fn(AdoptFns(o)[k].c, AdoptFns(o)[k].i, AdoptFns(o)[k].p, AdoptFns(o)[k].v))]

Init == /\ sid \in 1 .. Len(Sessions)
        /\ l = 0
        /\ heap = <<>>
        /\ verdict = {}

Step ==
    /\ verdict = {}
    /\ l < Len(Sessions[sid])
    /\ LET e == Sessions[sid][l + 1]
           r == Outcome(heap, e)
           c0 == JudgeAll(heap, e, r)
           c == c0 \ {"cut"}
           cut == ("cut" \in c0) \/ (c = {} /\ r.k = "any" /\ ~CanAdopt(e.res))
       IN /\ l' = l + 1
          /\ verdict' = IF cut THEN {"cut"} ELSE c
          /\ heap' = IF c # {} \/ cut THEN heap
                     ELSE IF r.k = "any" THEN Adopt(heap, e.res) ELSE After(heap, r)
          /\ IF cut THEN PrintT("CUT " \o ToJson([sid |-> sid, l |-> l + 1])) ELSE TRUE
          /\ IF c = {} THEN TRUE ELSE PrintT("VERDICT " \o ToJson([sid |-> sid, l |-> l + 1, clauses |-> c, want |-> r]))
    /\ UNCHANGED sid

Spec == Init /\ [][Step]_vars

\* only for fingerprints: a session is a single path
Pos == <<sid, l, verdict>>
=============================================================================
