----------------------------- MODULE TraceExpand -----------------------------
(***************************************************************************)
(* C08.  Every line of the trace file is one history run twice on the real *)
(* writer: a holds the calls as they are, b for each of them the parts it  *)
(* stands for (up to the first that failed).  The parts must be the ones   *)
(* Expand gives; what they do must be what the whole call does.            *)
(***************************************************************************)
EXTENDS Expand, Json, IOUtils, TLC

Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tr, l, stop
T == Traces[tr]

Norm(op) == [x \in (DOMAIN op) \ {"via"} |-> op[x]]
Outs(rs) == FoldLeft(LAMBDA a, r : a \o r.out, <<>>, rs)
AnyErr(rs) == rs # <<>> /\ rs[Len(rs)].err

(* A block keeps the inline content of its node back until it accepts its
   first child; when it refuses that child the content has not been written
   yet, but giving it separately would have. *)
Held(e, rs) == e.op.o = "block" /\ e.err /\ HasInline(e.op.n) /\ IsPrefix(e.out, Outs(rs))

Verdict(e, rs) ==
  LET ps == Parts(e.op) IN
  IF \E i \in 1..Len(rs) : rs[i].pan THEN "panic"
  ELSE IF e.pan THEN "panic"
  ELSE IF ~(Len(rs) <= Len(ps) /\ \A i \in 1..Len(rs) : Norm(rs[i].op) = Norm(ps[i])) THEN "driver"
  ELSE IF ~AnyErr(rs) /\ Len(rs) # Len(ps) THEN "driver"
  ELSE IF e.err # AnyErr(rs) THEN "error"
  ELSE IF e.out # Outs(rs) /\ ~Held(e, rs) THEN "output"
  ELSE IF rs # <<>> /\ e.dep # rs[Len(rs)].dep THEN "depth"
  ELSE ""

TraceInit == tr \in 1..Len(Traces) /\ l = 1 /\ stop = ""

Consume ==
  /\ stop = "" /\ l <= Len(T.a)
  /\ \E e \in {T.a[l]} : \E rs \in {T.b[l]} :
     \E v \in {IF Expandable(e.op) THEN Verdict(e, rs) ELSE "skip"} :
         /\ stop' = IF v = "" THEN IF e.err /\ Len(Parts(e.op)) # 1 THEN "end" ELSE "" ELSE IF v = "skip" THEN v ELSE "bad"
         /\ v \notin {"", "skip"} => PrintT("@MISMATCH " \o ToJson([id |-> T.id, l |-> l, kind |-> v, op |-> e.op,
                whole |-> [err |-> e.err, out |-> e.out, dep |-> e.dep], parts |-> [err |-> AnyErr(rs), out |-> Outs(rs)]]))
  /\ l' = l + 1 /\ UNCHANGED tr

Finish ==
  /\ stop # "done" /\ (stop # "" \/ l > Len(T.a))
  /\ PrintT("@DONE " \o ToString(T.id) \o " " \o ToString(l - 1) \o " " \o stop \o " 0")
  /\ stop' = "done" /\ UNCHANGED <<tr, l>>

TraceNext == Consume \/ Finish
TraceSpec == TraceInit /\ [][TraceNext]_<<tr, l, stop>>
=============================================================================
