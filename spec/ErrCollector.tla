---------------------------- MODULE ErrCollector ----------------------------
(***************************************************************************)
(* The error collector.  Errors are numbers, 0 is nil; a list is what one  *)
(* call is given; sites are the places calls are made from (file and       *)
(* line).  A state is the error held, its position in its list and the     *)
(* site of the call that brought it.                                       *)
(*                                                                         *)
(* An operation is [o, list, site]:                                        *)
(*   do, must   the methods                                                *)
(*   set        Set(&v) on a variable holding list[1]                      *)
(*   panic      Panic()                                                    *)
(*   unwrap     Unwrap()                                                   *)
(*   is         errors.Is(collector, error number list[1])                 *)
(*   error      Error()                                                    *)
(*                                                                         *)
(* Results: "" nothing, "self" the collector itself (panicked with, or now *)
(* in the variable), "kept" the variable is what it was, a number for      *)
(* unwrap and is (0/1), <<file and line, index, text>> for error, as the   *)
(* numbers they stand for.                                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets

EInit == [err |-> 0, idx |-> 0, site |-> 0]

FirstErr(list) == SelectInSeq(list, LAMBDA e : e # 0)

Held(op) == [err |-> op.list[FirstErr(op.list)], idx |-> FirstErr(op.list), site |-> op.site]

EApply(s, op) ==
  CASE op.o = "do"   -> IF s.err # 0 \/ FirstErr(op.list) = 0 THEN s ELSE Held(op)
    [] op.o = "must" -> IF FirstErr(op.list) = 0 THEN s ELSE Held(op)
    [] OTHER -> s

EResult(s, op) ==
  CASE op.o = "do"     -> <<>>
    [] op.o = "must"   -> IF FirstErr(op.list) = 0 THEN <<>> ELSE <<1>>
    [] op.o = "panic"  -> IF s.err = 0 THEN <<>> ELSE <<1>>
    [] op.o = "set"    -> IF s.err = 0 THEN <<0, op.list[1]>> ELSE <<1>>
    [] op.o = "unwrap" -> <<s.err>>
    [] op.o = "is"     -> IF s.err # 0 /\ s.err = op.list[1] THEN <<1>> ELSE <<0>>
    [] op.o = "error"  -> IF s.err = 0 THEN <<>> ELSE <<s.site, s.idx, s.err>>

(* What it is for, said over a whole history: h is a sequence of             *)
(* operations, of which only do and must bring errors.                       *)
Brings(op) == op.o \in {"do", "must"} /\ FirstErr(op.list) # 0
EAfter(h) == FoldLeft(EApply, EInit, h)

FirstKept(h) ==
  LET s == EAfter(h)
      dos == {i \in 1..Len(h) : Brings(h[i])}
      musts == {i \in dos : h[i].o = "must"}
  IN  IF dos = {} THEN s = EInit
      ELSE IF musts # {} THEN s = Held(h[CHOOSE i \in musts : \A j \in musts : j <= i])
      ELSE s = Held(h[CHOOSE i \in dos : \A j \in dos : i <= j])
=============================================================================
