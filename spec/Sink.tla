-------------------------------- MODULE Sink --------------------------------
(***************************************************************************)
(* The writer's delivery of bytes to its sink (C09, C10).                  *)
(*                                                                         *)
(* The calls of a history produce a stream of bytes.  The sink takes bytes *)
(* until it has taken limit of them and fails when it is given more (and   *)
(* then takes those that fit, or, if whole, none of what it was given); it *)
(* may take more again after that.  In between the writer may keep back up *)
(* to lag bytes.  A state is a record                                      *)
(*                                                                         *)
(*   want    how many bytes the calls have produced                        *)
(*   acc     how many of them the sink has taken                           *)
(*   broken  the sink has failed                                           *)
(*                                                                         *)
(* A step is what one call did: n, the bytes it would produce on a healthy *)
(* sink, whether it returned an error (err), whether that error was the    *)
(* sink's (own), whether the sink failed during it (hit), how much the     *)
(* sink had taken after it (acc), and what kind of call it was:            *)
(*                                                                         *)
(*   refused  returns an error on a healthy sink as well                   *)
(*   flush    makes sure everything has reached the sink                   *)
(*   must     always reaches the sink: a raw string, a flush, text         *)
(*   may      may find nothing to do once the sink has failed              *)
(*   writes   is asked to write at least one node, if only an empty string *)
(***************************************************************************)
EXTENDS Integers, Sequences

SinkInit == [want |-> 0, acc |-> 0, broken |-> FALSE]

Unlimited == -1

(* is e a step from s? *)
Healthy(s, e, limit, lag) ==
  /\ ~e.hit /\ ~e.own
  /\ e.err = e.refused
  /\ e.acc >= s.acc
  /\ e.acc <= s.want + e.n
  /\ limit # Unlimited => e.acc <= limit
  /\ lag # Unlimited => s.want + e.n <= e.acc + lag
  /\ e.flush /\ ~e.err => e.acc = s.want + e.n

Breaks(s, e, limit, whole) ==
  /\ e.hit /\ limit # Unlimited
  /\ s.want + e.n > limit          \* there was something to fail on
  /\ IF whole THEN e.acc >= s.acc /\ e.acc <= limit ELSE e.acc = limit
  /\ e.err
  /\ ~e.refused => e.own

AfterFailure(s, e) ==
  /\ ~e.hit
  /\ e.acc = s.acc                 \* nothing is written any more
  /\ e.n > 0 /\ ~e.may => e.err
  /\ e.must => e.err /\ e.own
  /\ e.flush => e.err
  /\ e.writes => e.err

SinkStepOk(s, e, limit, whole, lag) ==
  IF s.broken THEN AfterFailure(s, e) ELSE Healthy(s, e, limit, lag) \/ Breaks(s, e, limit, whole)

SinkAfter(s, e) == [want |-> s.want + e.n, acc |-> e.acc, broken |-> s.broken \/ e.hit]
=============================================================================
