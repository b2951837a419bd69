------------------------------ MODULE Returns -------------------------------
(***************************************************************************)
(* C23: what every call must do no matter what came before it: return,     *)
(* with or without an error, with the number of open nodes within limits   *)
(* that follow from the call alone.  Nothing here depends on whether the   *)
(* history makes sense, on the validation settings or on the sink, so it   *)
(* also holds after errors, where XmlWriter says nothing any more.         *)
(*                                                                         *)
(* A state is [d, h]: the number of open nodes, and how high a pile of     *)
(* nodes the inline content of the nodes started so far can leave behind   *)
(* when writing it fails halfway.                                          *)
(***************************************************************************)
EXTENDS XmlWriter, Calls, FiniteSets

StartableKinds == {"elem", "comment", "cdata", "doc", "dtd", "attlist"}

Larger(a, b) == IF a > b THEN a ELSE b
Smaller(a, b) == IF a < b THEN a ELSE b

RECURSIVE Pile(_)
Kids(n) == IF n.k \in {"elem", "chain"} THEN n.c ELSE <<>>
Own(n) == IF n.k = "chain" THEN n.df ELSE 0     \* an element with n.df more around it
Under(n) == Own(n) + FoldLeft(LAMBDA a, c : Larger(a, Pile(c)), 0, Kids(n))
Pile(n) == (IF n.k \in StartableKinds \cup {"chain"} THEN 1 ELSE 0) + Under(n)
PileOf(ns) == FoldLeft(LAMBDA a, n : Larger(a, Pile(n)), 0, ns)
UnderOf(ns) == FoldLeft(LAMBDA a, n : Larger(a, Under(n)), 0, ns)

RInit == [d |-> 0, h |-> 0]

NodesOf(op) == IF op.o = "block" THEN <<op.n>> \o op.ns
               ELSE IF op.o \in {"start", "write", "attrs"} THEN op.ns ELSE <<>>

(* the numbers of nodes that may be open after op, accepted or not *)
Done(s, op) ==
  CASE op.o = "start" -> {s.d + Len(op.ns)}
    [] op.o \in {"end", "endfull", "endany"} -> IF s.d > 0 THEN {s.d - 1} ELSE {}
    [] op.o \in {"endall", "endallflush"} -> {0}
    [] op.o = "enddoc" -> IF s.d > 0 THEN {0} ELSE {}
    [] op.o = "endto" -> IF s.d = 0 \/ op.d < 0 THEN {} ELSE {IF s.d > op.d THEN op.d ELSE s.d - 1}
    [] OTHER -> {s.d}

Failed(s, op, h1) ==
  CASE op.o = "start" -> s.d..(s.d + Len(op.ns) + h1)
    [] op.o \in {"write", "attrs"} -> s.d..(s.d + PileOf(op.ns) + h1)
    [] op.o = "block" -> s.d..(s.d + 1 + PileOf(op.ns) + h1)
    [] op.o \in {"endall", "endallflush", "enddoc"} -> 0..(s.d + h1)
    \* a refused EndToDepth leaves at least the node it was to end last
    [] op.o = "endto" -> (IF op.d < 0 THEN 0 ELSE IF s.d <= op.d THEN s.d ELSE op.d + 1)..(s.d + h1)
    [] op.o \in {"setenf", "setstrict", "setind", "setver", "setnl"} -> {}
    [] OTHER -> s.d..(s.d + h1)

Height(s, op) == Larger(s.h, UnderOf(NodesOf(op)))

(* "" if r = <<how it ended, an error, open nodes after it>> is allowed *)
Verdict(s, op, r) ==
  IF r[1] = 1 THEN "panic"
  ELSE IF r[1] # 0 THEN "hang"
  ELSE IF ~r[2] /\ r[3] \notin Done(s, op) THEN "accepted with the wrong depth"
  ELSE IF r[2] /\ r[3] \notin Failed(s, op, Height(s, op)) THEN "refused with the wrong depth"
  ELSE ""

Moved(s, op, r) == [d |-> r[3], h |-> Height(s, op)]

------------------------------------------------------------------------------
(* The calls that are combined in every order: every kind of node started  *)
(* and written, with content that is fine and content that is not, the     *)
(* whole End family with kinds, names and levels that exist and that do    *)
(* not, and every setting that can change in between.                      *)
OInd(k) == [o |-> "setind", k |-> k, via |-> 0]

Deep == [Elem("o") EXCEPT !.c = <<[Elem("m") EXCEPT !.c = <<[Elem("i") EXCEPT !.n = <<>>]>>]>>]
Bad == [Elem("1") EXCEPT !.at = <<AttrN("", "", "", "")>>]

SmallOps ==
  <<OStart(DocN), OStart(EA), OStart(Deep), OStart(DtdN("", "", "")), OStart(AttListN("l", <<DtdAttrN("a", "", 9, "v")>>)),
    OStart(CommentN("a-")), OStart(CDataN("]]>")),
    OWrite(Deep), OWrite(TextN("t")), OWrite(AttrN("p", "u", "x", "")), OWrite(CC("-")), OWrite(CD("]]>")), OWrite(RawN("r")),
    OWrite(PIN("xml", "?>")), OWrite(NotN("", "", "")), OBlock(Bad, <<TextN("t")>>),
    O("next"), OEnd("elem"), OEnd("big"), OEndFull(E0), O("endany"), O("endall"), O("enddoc"), OTo(-9, "neg", E0), OTo(1, "elem", <<B("a")>>),
    OSet("setenf", FALSE), OSet("setenf", TRUE), OInd("zero"), OInd("std"), OInd("none")>>

AllOps ==
  SmallOps \o PlaceOps \o EndsOps \o
  <<OStartL(<<EA, DtdN("d", "", ""), CommentN("")>>), OWriteL(<<TextN("a"), Deep, CD("x"), RawN("")>>), OStartL(E0), OWriteL(E0), OAttrs(E0),
    OBlock(DocN, <<Deep, Deep>>), OBlock(AttListN("", E0), <<EA>>), OBlock(CommentN("-"), <<CC("-")>>), OBlock(CDataN("]"), <<CD("]>")>>),
    OStart(Bad), OWrite(Bad), OWrite([Elem("e") EXCEPT !.c = <<PIN("p", ""), RawN("")>>]),
    OStart([Elem("") EXCEPT !.p = B("p"), !.u = B("u")]), OWrite(AttrN("", "u", "", "")), OWrite(AttrN("xmlns", "u", "p", "u")),
    OAttrs(<<AttrN("p", "u", "b", ""), AttrN("p", "v", "c", "")>>),
    OWrite(Str("text", <<0, -255, 55295>>)), OWrite(Str("ccontent", <<-192>>)), OWrite(Str("cdcontent", <<93>>)),
    OWrite([EntN("n", "v") EXCEPT !.sys = B("s"), !.nd = B("n"), !.f = TRUE]), OWrite([EntN("", "") EXCEPT !.pub = B("p")]),
    OWrite(DtdAttrN("a", "ID", -1, "v")), OWrite(DtdAttrN("a", "ID", 9, "v")), OStart([DocN EXCEPT !.fv = <<E0>>, !.fe = <<<<-255>>>>, !.sa = 1]),
    OWrite(NotN("n", "p", "")), OStart(DtdN("d", "p", "")),
    O("endallflush"), O("flush"), OSet("setstrict", FALSE), OSet("setstrict", TRUE),
    OInd("rec"), OTo(-1, "elem", E0), OTo(-2147483647, "elem", E0), OTo(2147483640, "doc", E0), OTo(0, "past", <<E0, E0>>), OTo(3, "none", <<E0>>),
    OEndN("big", <<E0>>), OEndN("neg", <<E0, E0>>), OEndN("past", <<E0, E0, E0, E0>>), OEndFull(<<E0, E0, E0>>)>>

RPlain == DefaultCfg @@ [buf |-> 0, coder |-> "", limit |-> -1, mode |-> "part", once |-> FALSE]

RCfgs == <<RPlain, [RPlain EXCEPT !.ind = "std"], [RPlain EXCEPT !.enf = FALSE], [RPlain EXCEPT !.enf = FALSE, !.ind = "zero"],
           [RPlain EXCEPT !.buf = 1, !.limit = 0, !.mode = "whole"], [RPlain EXCEPT !.enf = FALSE, !.ind = "std", !.buf = 1, !.limit = 7, !.mode = "part"],
           [RPlain EXCEPT !.buf = 16, !.limit = 3, !.mode = "short", !.once = TRUE, !.strict = FALSE],
           [RPlain EXCEPT !.rec = TRUE, !.fail = 3, !.ind = "std", !.wrap = "box"],
           [RPlain EXCEPT !.coder = "utf-16be", !.enc = B("utf-16be"), !.buf = 1], [RPlain EXCEPT !.enf = FALSE, !.coder = "iso-8859-1", !.limit = 5]>>
=============================================================================
