------------------------------ MODULE TraceTwin ------------------------------
(***************************************************************************)
(* Pairs of runs of the real writer that must agree.                       *)
(*                                                                         *)
(*   lax    (C14) a ran with validation on, b made the calls a accepted    *)
(*          with validation off: same bytes, results and depth.  m is the  *)
(*          specification's view of a: nothing is compared after an error  *)
(*          that leaves the writer in a state nothing is promised about    *)
(*   same   a and b must agree on every call, refusals included            *)
(*   nodes  (C20) the node values passed to the writers, before and after  *)
(***************************************************************************)
EXTENDS XmlWriter, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tr, l, stop, m
T == Traces[tr]

Verdict(a, b) ==
  IF a.pan \/ b.pan THEN "panic"
  ELSE IF T.mode = "lax" /\ a.err THEN ""      \* refused by a: b may do anything
  ELSE IF a.err # b.err THEN "error"
  ELSE IF a.out # b.out THEN "output"
  ELSE IF a.dep # b.dep THEN "depth"
  ELSE ""

TwinInit == tr \in 1..Len(Traces) /\ l = 1 /\ stop = "" /\ m = Init(Traces[tr].cfg)

Consume ==
  /\ stop = "" /\ l <= Len(T.a)
  /\ \E m1 \in {IF T.mode = "lax" THEN Apply(m, T.a[l].op) ELSE m} :
     \E v \in {IF T.mode = "nodes" THEN IF T.a[l] = T.b[l] THEN "" ELSE "changed"
              ELSE Verdict(T.a[l], T.b[l])} :
         /\ stop' = IF v # "" THEN "bad" ELSE IF m1.res = "fail" THEN "end" ELSE ""
         /\ m' = m1
         /\ v # "" => PrintT("@MISMATCH " \o ToJson([id |-> T.id, l |-> l, kind |-> v, a |-> T.a[l], b |-> T.b[l]]))
  /\ l' = l + 1 /\ UNCHANGED tr

Finish ==
  /\ stop # "done" /\ (stop # "" \/ l > Len(T.a))
  /\ PrintT("@DONE " \o ToString(T.id) \o " " \o ToString(l - 1) \o " " \o stop \o " 0")
  /\ stop' = "done" /\ UNCHANGED <<tr, l, m>>

TraceNext == Consume \/ Finish
TraceSpec == TwinInit /\ [][TraceNext]_<<tr, l, stop, m>>
=============================================================================
