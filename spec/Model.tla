-------------------------------- MODULE Model --------------------------------
(***************************************************************************)
(* Runs the programs of a file (see Gen.tla) as behaviours of the machine  *)
(* Staircase and checks the properties of Props.tla on every call.  Every  *)
(* program is one initial state.                                           *)
(***************************************************************************)
EXTENDS Props, Json, IOUtils

Programs == ndJsonDeserialize(IOEnv.DUMP)

Resolve(e, pos) ==
    LET at(k) == IF k > 1000 THEN pos[k - 1000] ELSE k
        fix(o) == IF o[1] = "o" THEN <<"o", at(o[2])>>
                  ELSE IF o[1] = "l" THEN <<"l", [j \in 1 .. Len(o[2]) |-> at(o[2][j])]>> ELSE o
    IN [x \in DOMAIN e \cup {"lim"} |->
          IF x = "lim" THEN 2147483647
          ELSE IF x = "ids" THEN [j \in 1 .. Len(e.ids) |-> at(e.ids[j])]
          ELSE IF x = "a" \/ (x = "b" /\ e.op # "resample") THEN fix(e[x]) ELSE e[x]]

VARIABLES n, l, heap, pos, ok
vars == <<n, l, heap, pos, ok>>
Init == /\ n \in 1 .. Len(Programs)
        /\ l = 0
        /\ heap = Programs[n].prog.fns
        /\ pos = <<>>
        /\ ok = TRUE
Next == /\ l < Len(Programs[n].prog.calls)
        /\ LET e == Resolve(Programs[n].prog.calls[l + 1], pos)
               r == Outcome(heap, e)
           IN /\ heap' = After(heap, r)
              /\ ok' = Holds(heap, e, r)
              /\ pos' = Append(pos, IF r.k \in {"new", "news"} THEN Len(heap) + 1 ELSE 0)
        /\ l' = l + 1
        /\ UNCHANGED n
Spec == Init /\ [][Next]_vars
Satisfied == ok
OnlyLayerMutates ==
    [][\A k \in 1 .. Len(heap) : heap'[k] = heap[k] \/ Programs[n].prog.calls[l'].op = "layer"]_vars
Here == <<n, l, ok>>
=============================================================================
