------------------------------- MODULE MCSink -------------------------------
(***************************************************************************)
(* The design of Sink: every behaviour its steps allow keeps the promises  *)
(* of C09 and C10.  Bytes are numbered by their place in the stream, and   *)
(* got is what the sink took, in order.                                    *)
(***************************************************************************)
EXTENDS Sink, FiniteSets

CONSTANTS MaxCalls, MaxBytes, MaxLimit

VARIABLES s, limit, whole, lag, got, calls, lost
vars == <<s, limit, whole, lag, got, calls, lost>>

Steps == [n : 0..MaxBytes, err : BOOLEAN, own : BOOLEAN, hit : BOOLEAN, acc : 0..(MaxCalls * MaxBytes),
          refused : BOOLEAN, flush : BOOLEAN, must : BOOLEAN, may : BOOLEAN, writes : BOOLEAN]

Sensible(e) ==
  /\ e.flush => e.must /\ ~e.refused /\ ~e.may /\ e.n = 0
  /\ e.must => ~e.refused /\ ~e.may
  /\ e.writes => ~e.may /\ ~e.flush
  /\ e.own => e.err

Init == s = SinkInit /\ limit \in {Unlimited} \cup 0..MaxLimit /\ whole \in BOOLEAN /\ lag \in Unlimited..MaxBytes /\ got = <<>> /\ calls = 0 /\ lost = FALSE

Call(e) ==
  /\ calls < MaxCalls
  /\ Sensible(e) /\ SinkStepOk(s, e, limit, whole, lag)
  /\ s' = SinkAfter(s, e)
  /\ got' = got \o [i \in 1..(e.acc - s.acc) |-> s.acc + i]
  /\ calls' = calls + 1
  \* a call after the failure that had to reach the sink and reported success
  /\ lost' = (lost \/ ((s.broken \/ e.hit) /\ (e.must \/ e.flush \/ e.hit \/ e.writes) /\ ~e.err))
  /\ UNCHANGED <<limit, whole, lag>>

Next == \E e \in Steps : Call(e)
Spec == Init /\ [][Next]_vars

Prefix == \A i \in 1..Len(got) : got[i] = i
Taken == Len(got) = s.acc /\ s.acc <= s.want
WithinLimit == limit # Unlimited => s.acc <= limit
BrokenAtLimit == s.broken /\ ~whole => s.acc = limit
NeverLost == ~lost
Streams == lag # Unlimited /\ ~s.broken => s.want - s.acc <= lag
(* a healthy sink never makes a call fail *)
HealthyNeverBreaks == limit = Unlimited => ~s.broken
=============================================================================
