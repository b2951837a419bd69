---------------------------- MODULE TraceReturns ----------------------------
(* C23: what recorded calls did, in any order and under any conditions.     *)
(* A line holds a history (calls by number, or in full) and its runs under  *)
(* several configurations: <<how it ended, an error, open nodes>> per call. *)
EXTENDS Returns, Json, IOUtils
Lines == ndJsonDeserialize(IOEnv.TRACE)
Numbered == IF IOEnv.SMALL = "1" THEN SmallOps ELSE AllOps
VARIABLES tr

OpAt(T, i) == IF T.h # <<>> THEN Numbered[T.h[i]] ELSE T.ops[i]
Length(T) == IF T.h # <<>> THEN Len(T.h) ELSE Len(T.ops)

(* the first call of a run that did what it may not: <<index, what>>; a run
   ends early only with a call that did not return *)
Walk(T, run) ==
  LET a == FoldLeft(LAMBDA x, i :
             IF x.v # "" THEN x
             ELSE LET op == OpAt(T, i)
                      v == Verdict(x.s, op, run[i])
                  IN  [s |-> IF v = "" THEN Moved(x.s, op, run[i]) ELSE x.s, v |-> v, i |-> i],
             [s |-> RInit, v |-> "", i |-> 0], [i \in 1..Len(run) |-> i])
  IN  IF a.v = "" /\ Len(run) # Length(T) THEN <<Len(run), "driver">> ELSE <<a.i, a.v>>

RetInit == tr \in {-(i) : i \in 1..Len(Lines)}
RetNext ==
  /\ tr < 0
  /\ tr' = -tr
  /\ LET T == Lines[-tr] IN
     /\ \A c \in 1..Len(T.runs) :
          \E w \in {Walk(T, T.runs[c])} :
              w[2] = "" \/ PrintT("@MISMATCH " \o ToJson([id |-> T.id, l |-> w[1], kind |-> w[2], run |-> c,
                                    ops |-> [i \in 1..w[1] |-> OpAt(T, i)], got |-> T.runs[c]]))
     /\ PrintT("@DONE " \o ToString(T.id) \o " " \o ToString(Length(T) * Len(T.runs)))
TraceSpec == RetInit /\ [][RetNext]_tr
=============================================================================
