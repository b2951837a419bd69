------------------------------ MODULE TraceErr ------------------------------
(* C18: recorded uses of the real error collector. *)
EXTENDS ErrCollector, TLC, Json, IOUtils

Lines == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tr, l, s, stop
T == Lines[tr]

Say(kind, want) == PrintT("@MISMATCH " \o ToJson([id |-> T.id, l |-> l, kind |-> kind, ev |-> T.ev[l], want |-> want]))

ErrInit == tr \in 1..Len(Lines) /\ l = 1 /\ s = EInit /\ stop = FALSE

Consume ==
  /\ ~stop /\ l <= Len(T.ev)
  /\ \E e \in {T.ev[l]} : \E s1 \in {EApply(s, e)} : \E r \in {EResult(s, e)} :
     \E v \in {IF e.pan THEN "panic" ELSE IF e.st # s1 THEN "state" ELSE IF e.res # r THEN "result" ELSE ""} :
         /\ s' = s1
         /\ stop' = (v # "")
         /\ v # "" => Say(v, [st |-> s1, res |-> r])
  /\ l' = l + 1 /\ UNCHANGED tr

Finish ==
  /\ tr > 0 /\ (stop \/ l > Len(T.ev))
  /\ PrintT("@DONE " \o ToString(T.id) \o " " \o ToString(l - 1))
  /\ tr' = -tr /\ UNCHANGED <<l, s, stop>>

ErrNext == tr > 0 /\ (Consume \/ Finish)
TraceSpec == ErrInit /\ [][ErrNext]_<<tr, l, s, stop>>
=============================================================================
