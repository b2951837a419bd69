------------------------------- MODULE MCErr -------------------------------
(* Every history of MaxOps operations: the collector holds what it should; *)
(* the longest ones are printed, to be run on the real collector.          *)
EXTENDS ErrCollector, TLC, Json
CONSTANTS MaxOps, MaxLen, Errors, Sites
VARIABLES h

Lists == UNION {[1..n -> 0..Errors] : n \in 0..MaxLen}
Ops == {[o |-> o, list |-> l, site |-> s] : o \in {"do", "must"}, l \in Lists, s \in 1..Sites}
       \cup {[o |-> o, list |-> <<e>>, site |-> 1] : o \in {"set", "is"}, e \in 0..Errors}
       \cup {[o |-> o, list |-> <<>>, site |-> 1] : o \in {"panic", "unwrap", "error"}}

InitC == h = <<>>
NextC == Len(h) < MaxOps /\ \E op \in Ops : h' = Append(h, op)
Right == FirstKept(h)
Shown == Len(h) = MaxOps => PrintT("@H " \o ToJson(h))
=============================================================================
