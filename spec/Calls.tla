-------------------------------- MODULE Calls --------------------------------
(***************************************************************************)
(* Calls, as values, and the alphabets of calls the bounded models draw    *)
(* from: one for each concern.                                             *)
(***************************************************************************)
EXTENDS Chars

E0 == <<>>
Elem(n) == [k |-> "elem", p |-> E0, u |-> E0, n |-> B(n), at |-> E0, c |-> E0, f |-> FALSE]
ElemP(p, u, n) == [Elem(n) EXCEPT !.p = B(p), !.u = B(u)]
AttrN(p, u, n, v) == [k |-> "attr", p |-> B(p), u |-> B(u), n |-> B(n), v |-> B(v)]
Str(k, s) == [k |-> k, s |-> s]
TextN(s) == Str("text", B(s))
RawN(s) == Str("raw", B(s))
CommentN(s) == Str("comment", B(s))
CDataN(s) == Str("cdata", B(s))
CC(s) == Str("ccontent", B(s))
CD(s) == Str("cdcontent", B(s))
PIN(n, s) == [k |-> "pi", n |-> B(n), s |-> B(s)]
DocN == [k |-> "doc", sv |-> FALSE, se |-> FALSE, fv |-> E0, fe |-> E0, sa |-> -1]
DtdN(n, pub, sys) == [k |-> "dtd", n |-> B(n), pub |-> B(pub), sys |-> B(sys)]
DtdElemN(n, s) == [k |-> "dtdelem", n |-> B(n), s |-> B(s)]
EntN(n, s) == [k |-> "dtdent", n |-> B(n), s |-> B(s), f |-> FALSE, pub |-> E0, sys |-> E0, nd |-> E0]
AttListN(n, at) == [k |-> "attlist", n |-> B(n), at |-> at]
DtdAttrN(n, ty, df, s) == [k |-> "dtdattr", n |-> B(n), ty |-> B(ty), df |-> df, s |-> B(s)]
NotN(n, pub, sys) == [k |-> "notation", n |-> B(n), pub |-> B(pub), sys |-> B(sys)]

OStart(n) == [o |-> "start", ns |-> <<n>>, via |-> 0]
OStart1(n) == [o |-> "start", ns |-> <<n>>, via |-> 1]
OWrite(n) == [o |-> "write", ns |-> <<n>>, via |-> 0]
OWrite1(n) == [o |-> "write", ns |-> <<n>>, via |-> 1]
OWriteL(ns) == [o |-> "write", ns |-> ns, via |-> 0]
OStartL(ns) == [o |-> "start", ns |-> ns, via |-> 0]
OAttrs(ns) == [o |-> "attrs", ns |-> ns, via |-> 0]
OBlock(n, ns) == [o |-> "block", n |-> n, ns |-> ns, via |-> 0]
OEnd(k) == [o |-> "end", k |-> k, d |-> 0, names |-> E0, via |-> 0]
OEnd1(k) == [o |-> "end", k |-> k, d |-> 0, names |-> E0, via |-> 1]
OEndN(k, ns) == [o |-> "end", k |-> k, d |-> 0, names |-> ns, via |-> 0]
OEndFull(ns) == [o |-> "endfull", names |-> ns, via |-> 0]
O(o) == [o |-> o, via |-> 0]
OTo(d, k, ns) == [o |-> "endto", d |-> d, k |-> k, names |-> ns, via |-> 0]
OSetS(o, v) == [o |-> o, s |-> v, via |-> 0]
OSet(o, v) == [o |-> o, v |-> v, via |-> 0]

EA == Elem("a")

(* C04: every kind, started and written, wherever it may or may not go *)
PlaceStarts == <<OStart(DocN), OStart(EA), OStart(DtdN("d", "", "")), OStart(AttListN("l", E0)),
                 OStart(CommentN("")), OStart(CDataN(""))>>
PlaceWrites == <<OWrite(Elem("e")), OWrite(AttrN("", "", "x", "v")), OWrite(TextN("t")), OWrite(RawN("r")),
                 OWrite(CommentN("c")), OWrite(CC("cc")), OWrite(CDataN("d")), OWrite(CD("dd")),
                 OWrite(PIN("p", "q")), OWrite(DtdElemN("e", "ANY")), OWrite(EntN("n", "s")),
                 OWrite(AttListN("l", <<DtdAttrN("a", "ID", 2, "")>>)), OWrite(DtdAttrN("a", "CDATA", 0, "")),
                 OWrite(NotN("n", "p", "s"))>>
PlaceOps == PlaceStarts \o PlaceWrites \o <<O("next"), O("endany"), OBlock(Elem("b"), <<TextN("t")>>)>>

(* C05: the whole End family *)
EndsOps ==
  <<OStart(EA), OStart(ElemP("p", "", "b")), OStart(CommentN("")), OStart(CDataN("")), OStart(DocN),
    OStart(DtdN("d", "", "")), OStart(AttListN("l", E0)), OWrite(TextN("t")),
    OEnd("elem"), OEnd1("elem"), OEndN("elem", <<B("a")>>), OEndN("elem", <<B("b")>>),
    OEndN("elem", <<B("p"), B("b")>>), OEndN("elem", <<E0, B("a")>>), OEndN("elem", <<B("p"), B("a")>>),
    OEndN("elem", <<E0, E0, E0>>),
    OEndFull(E0), OEndFull(<<B("a")>>), OEndFull(<<B("p"), B("b")>>),
    OEnd("doc"), OEnd("dtd"), OEndN("dtd", <<B("d")>>), OEndN("dtd", <<B("x")>>), OEnd1("dtd"),
    OEnd("attlist"), OEndN("attlist", <<B("l")>>), OEndN("attlist", <<B("p"), B("l")>>), OEnd1("attlist"),
    OEnd("comment"), OEnd1("comment"), OEndN("comment", <<E0>>), OEnd("cdata"), OEnd1("cdata"),
    OEnd("text"), OEnd("none"), OEnd("big"), OEnd("neg"),
    O("endany"), O("endall"), O("endallflush"), O("enddoc"),
    OTo(0, "elem", E0), OTo(1, "elem", E0), OTo(0, "doc", E0), OTo(1, "elem", <<B("a")>>), OTo(2, "elem", <<B("b")>>),
    OTo(1, "dtd", E0), OTo(1, "comment", E0)>>

(* C06: when start tags are completed and how elements close *)
TagsOps ==
  <<OStart(EA), OStart([Elem("f") EXCEPT !.f = TRUE]), OStart([Elem("i") EXCEPT !.c = <<TextN("x"), Elem("k")>>]),
    OStart([Elem("q") EXCEPT !.at = <<AttrN("", "", "x", "1")>>]),
    OWrite(AttrN("", "", "y", "2")), OWrite(RawN("!")), OWrite(TextN("t")), OWrite(TextN("")),
    O("next"), OWrite(Elem("w")), OWrite([Elem("v") EXCEPT !.c = <<[Elem("u") EXCEPT !.c = <<TextN("z")>>]>>]),
    OWrite(CommentN("")), OStart(CDataN("")), OEnd("elem"), OEndFull(E0), O("endany")>>

(* C07: prefixes and URIs *)
NsOps ==
  <<OStart(EA), OStart(ElemP("p", "", "a")), OStart(ElemP("p", "u", "a")), OStart(ElemP("p", "v", "a")),
    OStart(ElemP("", "u", "a")),
    OStart([ElemP("p", "u", "a") EXCEPT !.at = <<AttrN("q", "u", "x", ""), AttrN("p", "u", "y", "")>>]),
    OWrite(AttrN("p", "u", "b", "")), OWrite(AttrN("p", "v", "c", "")), OWrite(AttrN("q", "u", "d", "")),
    OWrite(AttrN("q", "v", "e", "")), OWrite(AttrN("", "u", "f", "")), OWrite(AttrN("", "v", "g", "")),
    OWrite(AttrN("p", "", "h", "")), OWrite(AttrN("s", "u", "b c", "")), OWrite(AttrN("p", "z", "-", "")),
    OAttrs(<<AttrN("r", "u", "i", ""), AttrN("p", "v", "j", ""), AttrN("r", "v", "k", "")>>),
    OWrite(TextN("t")), OWrite(Elem("w")), O("endany")>>

(* C13: content in pieces *)
ContentOps ==
  <<OStart(CommentN("")), OStart(CommentN("-")), OStart(CommentN("a")), OStart(CDataN("")), OStart(CDataN("]")),
    OWrite(CC("")), OWrite(CC("-")), OWrite(CC("a")), OWrite(CC("a-")), OWrite(CC("-a")), OWrite(CC("--")), OWrite(CC("a--b")),
    OWrite(CD("")), OWrite(CD("]")), OWrite(CD("]]")), OWrite(CD(">")), OWrite(CD("]>")), OWrite(CD("]]>")), OWrite(CD("a")), OWrite(CD(">]")),
    OWrite(Str("ccontent", <<1>>)), OWrite(Str("cdcontent", <<-255>>)), OWrite(Str("ccontent", <<133>>)), OWrite(Str("cdcontent", <<128>>)),
    OWrite(Str("ccontent", <<0, 45>>)), OWrite(Str("cdcontent", <<0, 93, 93>>)), OSet("setstrict", TRUE), OSet("setstrict", FALSE), O("endany")>>

PiTargets == <<"xml", "XML", "xMl", "Xml", "xmL", "xm", "xmlx", "1", "p", ":">>
PiContents == <<<<>>, B("a"), B("?"), B("?>"), B("a?>b"), B("> ?"), <<0>>, <<127>>, <<-128>>, <<65534>>, <<64976>>, <<10>>>>
OddStrings == <<<<>>, B("a"), <<DQ>>, <<SQ>>, <<DQ, SQ>>, <<SQ, 97, DQ>>, <<0>>, <<-200>>, <<65535>>, <<233>>, B("a<b"), <<9>>>>
SeqOf2(F(_, _), xs, ys) == [i \in 1..(Len(xs) * Len(ys)) |-> F(xs[((i - 1) \div Len(ys)) + 1], ys[((i - 1) % Len(ys)) + 1])]
PiOps == SeqOf2(LAMBDA x, y : OWrite([k |-> "pi", n |-> B(x), s |-> y]), PiTargets, PiContents)
NameStrings == <<<<>>, B("a"), B("1"), B("a b"), B(":"), <<97, 0>>, <<97, -255>>, B("-a"), B("a-"), <<768, 97>>, <<97, 768>>, <<215>>, <<233>>>>
NameOps ==
  [i \in 1..Len(NameStrings) |-> OStart([Elem("a") EXCEPT !.n = NameStrings[i]])]
  \o [i \in 1..Len(NameStrings) |-> OStart([Elem("a") EXCEPT !.p = NameStrings[i]])]
  \o [i \in 1..Len(NameStrings) |-> OWrite([AttrN("", "", "a", "") EXCEPT !.n = NameStrings[i]])]
  \o [i \in 1..Len(NameStrings) |-> OWrite([AttrN("", "", "a", "") EXCEPT !.p = NameStrings[i]])]
  \o [i \in 1..Len(NameStrings) |-> OStart([DtdN("d", "", "") EXCEPT !.n = NameStrings[i]])]
  \o [i \in 1..Len(NameStrings) |-> OStart([AttListN("d", E0) EXCEPT !.n = NameStrings[i]])]
  \o [i \in 1..Len(NameStrings) |-> OWrite([DtdElemN("d", "ANY") EXCEPT !.n = NameStrings[i]])]
  \o [i \in 1..Len(NameStrings) |-> OWrite([EntN("d", "s") EXCEPT !.n = NameStrings[i]])]
  \o [i \in 1..Len(NameStrings) |-> OWrite([EntN("d", "") EXCEPT !.nd = NameStrings[i], !.sys = B("s")])]
  \o [i \in 1..Len(NameStrings) |-> OWrite([DtdAttrN("d", "ID", 0, "") EXCEPT !.n = NameStrings[i]])]
  \o [i \in 1..Len(NameStrings) |-> OWrite([NotN("d", "", "s") EXCEPT !.n = NameStrings[i]])]
  \o [i \in 1..Len(NameStrings) |-> OWrite([PIN("d", "s") EXCEPT !.n = NameStrings[i]])]

(* C15: declarations *)
IdPairs == SeqOf2(LAMBDA x, y : <<x, y>>, OddStrings, OddStrings)
DeclOps ==
  [i \in 1..Len(IdPairs) |-> OStart([DtdN("d", "", "") EXCEPT !.pub = IdPairs[i][1], !.sys = IdPairs[i][2]])]
  \o [i \in 1..Len(IdPairs) |-> OWrite([NotN("n", "", "") EXCEPT !.pub = IdPairs[i][1], !.sys = IdPairs[i][2]])]
  \o [i \in 1..Len(IdPairs) |-> OWrite([EntN("n", "") EXCEPT !.pub = IdPairs[i][1], !.sys = IdPairs[i][2]])]
  \o [i \in 1..Len(IdPairs) |-> OWrite([EntN("n", "") EXCEPT !.s = IdPairs[i][1], !.sys = IdPairs[i][2], !.f = TRUE])]
  \o [i \in 1..Len(IdPairs) |-> OWrite([EntN("n", "") EXCEPT !.s = IdPairs[i][1], !.nd = IdPairs[i][2]])]
  \o [i \in 1..Len(IdPairs) |-> OWrite([EntN("n", "") EXCEPT !.sys = IdPairs[i][1], !.nd = IdPairs[i][2]])]
  \o [i \in 1..8 |-> OWrite(IF i <= 4 THEN [EntN("n", "") EXCEPT !.sys = B("s"), !.nd = B("n"), !.f = (i % 2 = 0), !.pub = IF i <= 2 THEN E0 ELSE B("p")]
                            ELSE [EntN("n", "v") EXCEPT !.f = (i % 2 = 0)])]
  \o [i \in 1..(7 * Len(OddStrings)) |->
        OWrite([DtdAttrN("a", "CDATA", 0, "") EXCEPT !.df = ((i - 1) \div Len(OddStrings)) - 1, !.s = OddStrings[((i - 1) % Len(OddStrings)) + 1]])]
  \o <<OWrite(DtdAttrN("a", "", 0, "")), OWrite(DtdElemN("e", "")), OWrite(DtdElemN("e", "(a|b)*"))>>

DtdOps ==
  <<OStart(DtdN("d", "", "")), OStart(DtdN("d", "p", "s")), OStart(DtdN("d", "", "s")), OStart(AttListN("l", E0)),
    OStart(AttListN("m", <<DtdAttrN("a", "ID", 2, ""), DtdAttrN("b", "CDATA", 4, "<")>>)),
    OWrite(AttListN("n", <<DtdAttrN("a", "ID", 3, "")>>)), OWrite(DtdAttrN("c", "CDATA", 1, "x")), OWrite(DtdAttrN("c", "CDATA", 2, "x")),
    OWrite(DtdElemN("e", "ANY")), OWrite(EntN("n", "v")), OWrite([EntN("n", "v") EXCEPT !.f = TRUE]), OWrite(NotN("n", "p", "")),
    OWrite(CommentN("c")), O("next"), O("endany"), O("endall")>>

(* C16: the XML declaration *)
Opts == <<<<>>, <<B("1.0")>>, <<B("1.1")>>, <<<<>>>>>>
Encs == <<<<>>, <<B("UTF-8")>>, <<<<>>>>, <<B("a.b-c_9")>>, <<B("8")>>, <<B("a b")>>, <<<<233>>>>, <<<<97, -255>>>>>>
DocVars == SeqOf2(LAMBDA x, y : [DocN EXCEPT !.fv = x, !.fe = y], Opts, Encs)
DocOps ==
  [i \in 1..(Len(DocVars) * 12) |->
     LET d == DocVars[((i - 1) \div 12) + 1]
         j == (i - 1) % 12
     IN  OStart([d EXCEPT !.sv = (j % 2 = 1), !.se = ((j \div 2) % 2 = 1), !.sa = (j \div 4) - 1])]
  \o <<OStart(EA), OWrite(TextN("t")), O("endany")>>
DocAfter == <<OStart(DocN), OStart([DocN EXCEPT !.sa = 1]), OStart(EA), OWrite(Elem("w")), OStart(CommentN("c")), OWrite(PIN("p", "")),
              OWrite(TextN("t")), O("endany"), O("enddoc"), O("next"),
              OSetS("setver", B("1.1")), OSetS("setver", E0), OSetS("setnl", <<13, 10>>)>>

(* C11, C12: layout and events *)
IndentOps ==
  <<OStart(DocN), OStart(EA), OStart(DtdN("d", "", "")), OStart(AttListN("l", E0)), OStart(CommentN("")),
    OWrite(TextN("t")), OWrite(CommentN("c")), OWrite(PIN("p", "q")), OWrite(CDataN("d")), OWrite(Elem("e")),
    OWrite(DtdElemN("e", "ANY")), OWrite(DtdAttrN("a", "ID", 2, "")), OWrite(AttrN("", "", "x", "v")), OWrite(CC("cc")),
    OWrite([Elem("i") EXCEPT !.c = <<TextN("x"), Elem("k")>>]), OStart([Elem("j") EXCEPT !.c = <<CommentN("m"), TextN("y")>>]),
    OWrite(RawN("!")), O("next"), OStart(CommentN("in")),
    O("endany"), OEndFull(E0)>>

(* C11: layout switched off and on, and changed, in the middle *)
LayoutOps ==
  <<OStart(EA), OStart(DtdN("d", "", "")), OWrite(TextN("t")), OWrite(CommentN("c")), OWrite(Elem("e")), OWrite([Elem("i") EXCEPT !.c = <<Elem("k")>>]),
    OWrite(DtdElemN("e", "ANY")), O("next"), O("endany"),
    [o |-> "setind", k |-> "none", via |-> 0], [o |-> "setind", k |-> "back", via |-> 0], [o |-> "setind", k |-> "std", via |-> 0],
    [o |-> "setind", k |-> "zero", via |-> 0], OSetS("setistr", B("..")), OSetS("setnl", <<13, 10>>)>>

(* C08: inline parts *)
InlineOps ==
  <<OStart(EA), OStart([Elem("q") EXCEPT !.at = <<AttrN("p", "u", "x", "1")>>]),
    OWrite([Elem("w") EXCEPT !.at = <<AttrN("", "", "x", "1"), AttrN("p", "u", "y", "2")>>, !.c = <<TextN("t"), CommentN("c"), CDataN("d")>>]),
    OWrite([Elem("w") EXCEPT !.c = <<[Elem("v") EXCEPT !.c = <<[Elem("u") EXCEPT !.c = <<Elem("s")>>]>>], TextN("t")>>]),
    OWrite([Elem("w") EXCEPT !.f = TRUE]), OWriteL(<<Elem("x"), TextN("t"), Elem("y")>>), OStartL(<<Elem("x"), Elem("y"), Elem("z")>>),
    OBlock(Elem("b"), <<AttrN("", "", "x", "1"), TextN("t"), [Elem("y") EXCEPT !.c = <<TextN("u")>>]>>),
    OBlock([Elem("b") EXCEPT !.c = <<TextN("u")>>], E0), OBlock(CommentN("a"), <<CC("b")>>), OBlock(CDataN("a"), <<CD("b")>>),
    OStart(CommentN("in")), OStart(CDataN("in")), OWrite(TextN("t")), OWrite(AttrN("q", "v", "z", "")),
    OBlock(DtdN("d", "", ""), <<AttListN("l", <<DtdAttrN("a", "ID", 2, "")>>), DtdElemN("e", "ANY")>>),
    O("next"), O("endany")>>

(* C14: toggling validation around calls that are refused or not *)
LaxOps ==
  <<OStart(DocN), OStart(EA), OStart(Elem("1")), OStart(DtdN("d", "", "")), OStart(AttListN("l", E0)), OStart(CommentN("")), OStart(CDataN("")),
    OWrite(TextN("t")), OWrite(CC("a--b")), OWrite(CC("-")), OWrite(CD("]]>")), OWrite(PIN("xml", "?>")), OWrite(AttrN("", "", "", "v")), OWrite(AttrN("1", "", "b", "v")),
    OWrite(DtdAttrN("", "", 0, "")), OWrite(DtdElemN("1", "")), OWrite([EntN("n", "v") EXCEPT !.sys = B("s")]),
    OWrite(NotN("1", "", "")), OSet("setenf", TRUE), OSet("setenf", FALSE), O("endany"), O("endall")>>

(* C20: nodes that leave something behind if anything does, one after the other *)
PastOps ==
  <<OStart(DocN), OStart(EA), OStart(ElemP("p", "u", "a")), OStart(CommentN("")), OStart(CDataN("")), OStart(DtdN("d", "", "")), OStart(AttListN("l", E0)),
    OWrite(CDataN("]]")), OWrite(CDataN(">")), OWrite(CDataN("]>")), OWrite(CommentN("-a")), OWrite(CC("a-")), OWrite(CC("-")), OWrite(CD("]")), OWrite(CD(">")),
    OWrite([ElemP("p", "v", "b") EXCEPT !.at = <<AttrN("q", "u", "x", "1")>>, !.f = TRUE]), OWrite([Elem("c") EXCEPT !.c = <<TextN("t"), Elem("k")>>]),
    OWrite(AttrN("p", "v", "y", "2")), OWrite(AttrN("q", "v", "z", "3")),
    OBlock(DtdN("e", "", ""), <<DtdElemN("e", "ANY")>>), OWrite(AttListN("m", <<DtdAttrN("a", "ID", 2, "")>>)), OWrite(TextN("t")), OEndFull(E0), O("endany")>>

(* many children, many levels: where counters turn over *)

Times(n, k) == [i \in 1..k |-> n]
Turn == 256
SmallNodes == <<TextN("t"), Elem("w"), CommentN("c"), CDataN("d"), PIN("p", "q"), CC("c"), CD("d"), DtdElemN("e", "ANY"), EntN("n", "v"), NotN("n", "", "s"),
           AttListN("l", E0), DtdAttrN("a", "ID", 3, ""), RawN("r"), AttrN("", "", "x", "v")>>
BulkOps ==
  <<OStart(DocN), OStart(EA), OStart(DtdN("d", "", "s")), OStart(AttListN("l", E0)), OStart(CommentN("")), OStart(CDataN(""))>>
  \o [i \in 1..(Len(SmallNodes) - 1) |-> OWriteL(Times(SmallNodes[i], Turn))]
  \o [i \in 1..Len(SmallNodes) |-> OWrite(SmallNodes[i])]
  \o <<OAttrs([i \in 1..Turn |-> [AttrN("", "u", "x", "v") EXCEPT !.n = B("x") \o B(ToString(i)), !.p = IF i % 3 = 0 THEN E0 ELSE B("p") \o B(ToString(i))]]),
        OStartL(Times(EA, Turn)), O("endany"), O("endall"), OTo(0, "elem", E0), OTo(254, "elem", E0), OTo(255, "elem", E0), O("enddoc")>>
=============================================================================
