------------------------------- MODULE Expand -------------------------------
(***************************************************************************)
(* What a structured call stands for: the single calls that give a node    *)
(* its attributes, content and members one at a time (C08).  Purely        *)
(* syntactic.  A node that is only started keeps its inline content for    *)
(* later, so only its attributes can be given separately.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

LOCAL One(o, n) == [o |-> o, ns |-> <<n>>]
LOCAL Close(k) == [o |-> "end", k |-> k, d |-> 0, names |-> <<>>]
LOCAL Each(F(_), ns) == FoldLeft(LAMBDA a, n : a \o F(n), <<>>, ns)

LOCAL StartParts(n) ==
  CASE n.k = "elem" -> <<One("start", [n EXCEPT !.at = <<>>])>> \o Each(LAMBDA a : <<One("write", a)>>, n.at)
    [] OTHER -> <<One("start", n)>>

RECURSIVE WriteParts(_)
WriteParts(n) ==
  CASE n.k = "elem" ->
         StartParts([n EXCEPT !.c = <<>>]) \o Each(LAMBDA x : WriteParts(x), n.c) \o <<Close("elem")>>
    [] n.k = "comment" ->
         <<One("start", [n EXCEPT !.s = <<>>])>>
         \o (IF n.s = <<>> THEN <<>> ELSE <<One("write", [k |-> "ccontent", s |-> n.s])>>) \o <<Close("comment")>>
    [] n.k = "cdata" ->
         <<One("start", [n EXCEPT !.s = <<>>])>>
         \o (IF n.s = <<>> THEN <<>> ELSE <<One("write", [k |-> "cdcontent", s |-> n.s])>>) \o <<Close("cdata")>>
    [] n.k = "attlist" ->
         <<One("start", [n EXCEPT !.at = <<>>])>> \o Each(LAMBDA x : WriteParts(x), n.at) \o <<Close("attlist")>>
    [] OTHER -> <<One("write", n)>>

(* a block starts its node, whose own inline content comes before the first
   child that is not an attribute *)
LOCAL BlockParts(n, ns) ==
  LET i == SelectInSeq(ns, LAMBDA x : x.k # "attr")
      k == IF i = 0 THEN Len(ns) ELSE i - 1
      lead == SubSeq(ns, 1, k)
      tail == SubSeq(ns, k + 1, Len(ns))
      bare == CASE n.k = "elem" -> [n EXCEPT !.c = <<>>]
                [] n.k \in {"comment", "cdata"} -> [n EXCEPT !.s = <<>>]
                [] n.k = "attlist" -> [n EXCEPT !.at = <<>>]
                [] OTHER -> n
      inline == CASE n.k = "elem" -> Each(LAMBDA x : WriteParts(x), n.c)
                  [] n.k = "comment" /\ n.s # <<>> -> <<One("write", [k |-> "ccontent", s |-> n.s])>>
                  [] n.k = "cdata" /\ n.s # <<>> -> <<One("write", [k |-> "cdcontent", s |-> n.s])>>
                  [] n.k = "attlist" -> Each(LAMBDA x : WriteParts(x), n.at)
                  [] OTHER -> <<>>
  IN  StartParts(bare) \o Each(LAMBDA x : <<One("write", x)>>, lead) \o inline
      \o Each(LAMBDA x : WriteParts(x), tail) \o <<Close(n.k)>>

HasInline(n) == CASE n.k = "elem" -> n.c # <<>> [] n.k \in {"comment", "cdata"} -> n.s # <<>>
                  [] n.k = "attlist" -> n.at # <<>> [] OTHER -> FALSE

Parts(op) ==
  CASE op.o = "start" -> Each(LAMBDA n : StartParts(n), op.ns)
    [] op.o = "write" -> Each(LAMBDA n : WriteParts(n), op.ns)
    [] op.o = "attrs" -> Each(LAMBDA n : <<One("write", n)>>, op.ns)
    [] op.o = "block" -> BlockParts(op.n, op.ns)
    [] OTHER -> <<op>>

(* The equivalence is claimed for what inline content may hold, and for
   blocks whose children fit. *)
RECURSIVE ContentOk(_)
ContentOk(n) == n.k = "elem" => \A i \in 1..Len(n.c) : n.c[i].k \in {"text", "elem", "comment", "cdata"} /\ ContentOk(n.c[i])

Expandable(op) ==
  CASE op.o \in {"start", "write", "attrs"} -> \A i \in 1..Len(op.ns) : ContentOk(op.ns[i])
    [] op.o = "block" -> ContentOk(op.n) /\ \A i \in 1..Len(op.ns) : ContentOk(op.ns[i])
    [] OTHER -> TRUE
=============================================================================
