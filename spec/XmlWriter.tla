------------------------------ MODULE XmlWriter ------------------------------
(***************************************************************************)
(* The writer as a deterministic state machine.                            *)
(*                                                                         *)
(* A state is a record (see Init).  Apply(m, op) is the state after the    *)
(* public call op: it carries the bytes the call added to the document     *)
(* (out), the events it showed to the indenter (evs) and its result:       *)
(*                                                                         *)
(*   res = "ok"    the call succeeds                                       *)
(*   res = "rej"   the call returns an error and, in its last step, did    *)
(*                 nothing: the rest of the state is what it was before    *)
(*                 that step                                               *)
(*   res = "fail"  the call returns an error after having started to write *)
(*                 something; the specification promises nothing about     *)
(*                 what can be done with the writer afterwards             *)
(*                                                                         *)
(* Nodes and calls are records; see ops.go for the JSON the driver logs.   *)
(***************************************************************************)
EXTENDS Chars

StOpen == 0     \* <elem
StOpened == 1   \* <elem>
StEnded == 2    \* <elem></elem>

Event(st, k, ch) == [st |-> st, k |-> k, ch |-> ch]

(***************************************************************************)
(* Configuration:                                                          *)
(*   enf, strict   validation, strict character checks                     *)
(*   nl            newline string                                          *)
(*   ind           "none" | "std"                                          *)
(*   istr          indent string of the standard indenter                  *)
(*   rec           a custom indenter is installed that sees every event    *)
(*   wrap          what its Wrap makes of the content: "box" puts [ ] around  *)
(*                 it, "dash" hyphens, "trim" takes hyphens off its ends,    *)
(*                 "twice" repeats it, "none" gives nothing                 *)
(*   mark          it writes a mark for every event (by WriteRaw)          *)
(*   fail          the number of the Indent call that returns an error     *)
(*   enc, ver      encoding the writer was opened with; Version field      *)
(***************************************************************************)
DefaultCfg ==
  [enf |-> TRUE, strict |-> TRUE, nl |-> <<10>>, ind |-> "none", istr |-> <<32>>,
   rec |-> FALSE, wrap |-> "", mark |-> FALSE, fail |-> 0, enc |-> B("UTF-8"), ver |-> <<>>]

Init(cfg) ==
  [cfg |-> cfg, stk |-> <<>>, last |-> Event(StOpen, "none", 0), lv |-> <<0>>,
   out |-> <<>>, evs |-> <<>>, nev |-> 0, res |-> "ok"]

OkM(m) == m.res = "ok"
Then(m, F(_)) == IF m.res # "ok" THEN m ELSE F(m)
Rej(m) == [m EXCEPT !.res = "rej"]
Fail(m) == [m EXCEPT !.res = "fail"]
(* an error inside a call that had already done something *)
Hard(m) == IF m.res = "rej" THEN Fail(m) ELSE m
Require(m, cond) == IF m.cfg.enf /\ ~cond THEN Rej(m) ELSE m
Emit(m, s) == [m EXCEPT !.out = @ \o s]

Top(m) == m.stk[Len(m.stk)]
SetTop(m, n) == [m EXCEPT !.stk[Len(m.stk)] = n]
Parent(m) == IF m.stk = <<>> THEN "none" ELSE Top(m).k

(***************************************************************************)
(* Indenting                                                               *)
(***************************************************************************)
HasInd(m) == m.cfg.ind # "none" \/ m.cfg.rec

Nests(k) == k \in {"elem", "dtd", "attlist"}
DeclLeaf(k) == k \in {"dtdent", "dtdattr", "dtdelem", "notation"}
BreaksAfter(e) == Nests(e.k) \/ DeclLeaf(e.k) \/ (e.k = "comment" /\ e.st = StEnded)
BreaksBefore(e) ==
  /\ e.st # StOpened
  /\ Nests(e.k) \/ DeclLeaf(e.k) \/ (e.k = "comment" /\ e.st = StOpen)

Break(m) == m.cfg.nl \o Rep(m.cfg.istr, Len(m.lv) - 1)

(* The standard indenter.  lv holds, for every open element, DTD and
   attribute list whose start has been completed, how many of its children
   were put on a line of their own (below them, the same for the document). *)
StdIndent(m, e) ==
  LET d == Len(m.lv)
      \* a node that was opened before the indenter was there has no level of its own
      inline == Nests(e.k) /\ e.st = StEnded /\ d > 1 /\ m.lv[d] = 0
      m1 == IF Nests(e.k) /\ e.st = StOpened THEN [m EXCEPT !.lv = Append(@, 0)]
            ELSE IF Nests(e.k) /\ e.st = StEnded /\ d > 1 THEN [m EXCEPT !.lv = SubSeq(@, 1, d - 1)]
            ELSE m
  IN  IF BreaksAfter(m.last) /\ BreaksBefore(e)
      THEN IF e.k = "elem" /\ e.st = StEnded /\ e.ch = 0 THEN m1
           ELSE IF inline THEN m1
           ELSE LET m2 == IF e.st = StOpen THEN [m1 EXCEPT !.lv[d] = @ + 1] ELSE m1
                IN  Emit(m2, Break(m2))
      ELSE IF e.k = "doc" /\ e.st = StEnded THEN Emit(m1, m1.cfg.nl)
      ELSE m1

(* what a custom indenter writes goes between what was written before the
   event and what is written because of it *)
Mark(m, e) ==
  IF m.cfg.rec /\ m.cfg.mark
  THEN Emit(m, <<123>> \o B(ToString(e.st)) \o B(e.k) \o <<125>>)
  ELSE m

Indent(m, e) ==
  IF ~HasInd(m) THEN m
  ELSE LET m1 == IF m.cfg.rec
                 THEN [m EXCEPT !.nev = @ + 1, !.evs = Append(@, <<m.last, e>>)]
                 ELSE m
       IN  IF m1.cfg.rec /\ m1.cfg.fail # 0 /\ m1.nev = m1.cfg.fail THEN Fail(m1)
           ELSE IF m1.cfg.ind = "std" THEN StdIndent(Mark(m1, e), e)
           ELSE Mark(m1, e)

SetLast(m, e) == IF HasInd(m) THEN [m EXCEPT !.last = e] ELSE m
Ended(m, k) == SetLast(m, Event(StEnded, k, 0))

LOCAL Trim(s) ==
  LET no == {i \in 1..Len(s) : s[i] # 45}
  IN  IF no = {} THEN <<>> ELSE SubSeq(s, CHOOSE i \in no : \A j \in no : i <= j, CHOOSE i \in no : \A j \in no : j <= i)
Wrap(m, s) ==
  IF ~m.cfg.rec THEN s
  ELSE CASE m.cfg.wrap = "box" -> <<91>> \o s \o <<93>>
         [] m.cfg.wrap = "dash" -> <<45>> \o s \o <<45>>
         [] m.cfg.wrap = "trim" -> Trim(s)
         [] m.cfg.wrap = "twice" -> s \o <<32>> \o s
         [] m.cfg.wrap = "none" -> <<>>
         [] OTHER -> s

(***************************************************************************)
(* Escaping                                                                *)
(***************************************************************************)
EscAny(c) ==
  CASE c = DQ  -> B("&#34;")
    [] c = SQ  -> B("&#39;")
    [] c = AMP -> B("&amp;")
    [] c = LT  -> B("&lt;")
    [] c = GT  -> B("&gt;")
    [] c = CR  -> B("&#xD;")
    [] OTHER   -> IF IsXmlChar(c) THEN <<c>> ELSE <<FFFD>>

EscChar(c, attr) ==
  IF attr /\ c = TAB THEN B("&#x9;")
  ELSE IF attr /\ c = NLC THEN B("&#xA;")
  ELSE EscAny(c)

PlainFor(c, attr) ==
  /\ IsXmlChar(c)
  /\ c \notin {DQ, SQ, AMP, LT, GT, CR}
  /\ attr => c \notin {TAB, NLC}

Esc(s, attr) ==
  IF \A i \in 1..Len(s) : PlainFor(s[i], attr) THEN s
  ELSE FoldLeft(LAMBDA a, c : a \o EscChar(c, attr), <<>>, s)

(* Attribute values are copied as they are up to the first character that
   might need escaping; only an apostrophe looks different because of it. *)
Unescaped(c) ==
  \/ IsAlpha(c) \/ IsDigit(c)
  \/ c \in {33, 35, 36, 37, 39, 40, 41, 42, 43, 44, 45, 46, 47, 58, 59, 61, 63, 64, 91, 93, 94, 95, 96, 126}

EscAttrValue(s) ==
  IF ~Has(s, SQ) THEN Esc(s, TRUE)
  ELSE LET k == SelectInSeq(s, LAMBDA c : ~Unescaped(c))
       IN  IF k = 0 THEN s ELSE SubSeq(s, 1, k - 1) \o Esc(SubSeq(s, k, Len(s)), TRUE)

EscText(s) == Esc(s, FALSE)
EscAttr(s) == EscAttrValue(s)

(***************************************************************************)
(* Names, attributes, external identifiers                                 *)
(***************************************************************************)
FullName(p, n) == IF p = <<>> THEN n ELSE p \o <<58>> \o n

AttrBytes(name, value) == <<SP>> \o name \o B("=\"") \o EscAttr(value) \o <<DQ>>

PrintAttr(m, name, value) ==
  IF m.cfg.enf /\ ~NameOk(name) THEN Rej(m)
  ELSE Emit(m, AttrBytes(name, value))

XmlnsName(p) == IF p = <<>> THEN B("xmlns") ELSE B("xmlns:") \o p

Quoted(s) == LET q == IF Has(s, DQ) THEN SQ ELSE DQ IN <<q>> \o s \o <<q>>

LiteralOk(s) == ~(Has(s, DQ) /\ Has(s, SQ)) /\ CharsOk(s, FALSE)

EmitLiteral(m, s) == IF m.cfg.enf /\ ~LiteralOk(s) THEN Fail(m) ELSE Emit(m, Quoted(s))

EmitPublic(m, pub, sys) ==
  IF m.cfg.enf /\ ~PubidOk(pub) THEN Fail(m)
  ELSE LET m1 == Emit(m, B("PUBLIC \"") \o pub \o <<DQ>>)
       IN  IF sys = <<>> THEN m1 ELSE EmitLiteral(Emit(m1, <<SP>>), sys)

EmitExternal(m, pub, sys) ==
  IF pub = <<>> /\ sys = <<>> THEN m
  ELSE IF pub = <<>> THEN EmitLiteral(Emit(m, B("SYSTEM ")), sys)
  ELSE IF m.cfg.enf /\ sys = <<>> THEN Fail(m)
  ELSE EmitPublic(m, pub, sys)

(***************************************************************************)
(* The stack of open nodes                                                 *)
(*                                                                         *)
(*  k      kind             st   StOpen / StOpened                         *)
(*  ch     children so far  n,p  name and prefix                           *)
(*  full   close in full    s    pending string content                    *)
(*  c      pending content  at   pending attributes or members             *)
(*  ns     declarations: [p, u, w(ritten)]                                 *)
(*  tail   last characters of the content written so far                   *)
(***************************************************************************)
Frame(k) ==
  [k |-> k, st |-> StOpen, ch |-> 0, n |-> <<>>, p |-> <<>>, full |-> FALSE,
   s |-> <<>>, c |-> <<>>, at |-> <<>>, ns |-> <<>>, tail |-> <<>>]

Startable == {"doc", "elem", "dtd", "attlist", "comment", "cdata"}

(* where a node may be written or started (validation on) *)
Allowed(k) ==
  CASE k = "doc"      -> {"none"}
    [] k = "elem"     -> {"none", "doc", "elem"}
    [] k = "dtd"      -> {"none", "doc"}
    [] k = "attlist"  -> {"none", "dtd"}
    [] k = "comment"  -> {"none", "doc", "dtd", "elem"}
    [] k = "cdata"    -> {"none", "elem"}
    [] k = "attr"     -> {"none", "elem"}
    [] k = "text"     -> {"none", "elem"}
    [] k = "ccontent" -> {"none", "comment"}
    [] k = "cdcontent"-> {"none", "cdata"}
    [] k = "pi"       -> {"none", "doc", "elem"}
    [] k = "dtdelem"  -> {"none", "dtd"}
    [] k = "dtdent"   -> {"none", "dtd"}
    [] k = "notation" -> {"none", "dtd"}
    [] k = "dtdattr"  -> {"none", "attlist"}

PlacedOk(m, k) == Parent(m) \in Allowed(k)

(***************************************************************************)
(* Attributes                                                              *)
(***************************************************************************)
Declared(ns, p) == {i \in 1..Len(ns) : ns[i].p = p}

WriteAttr(m, a) ==
  IF m.cfg.enf /\ ~(/\ PlacedOk(m, "attr")
                    /\ m.stk # <<>> => Top(m).st = StOpen
                    /\ a.n # <<>>)
  THEN Rej(m)
  ELSE
  \* a refused attribute is not shown to the indenter and declares nothing
  LET name == FullName(a.p, a.n)
      bind == a.u # <<>> /\ m.stk # <<>>
      decl == IF bind THEN Declared(Top(m).ns, a.p) ELSE {}
      conflict == \E i \in decl : Top(m).ns[i].u # a.u
  IN  IF (m.cfg.enf /\ ~NameOk(name)) \/ conflict THEN Rej(m)
      ELSE Then(Indent(m, Event(StOpen, "attr", 0)), LAMBDA m1 :
           LET m2 == IF bind /\ decl = {}
                     THEN [m1 EXCEPT !.stk[Len(m1.stk)].ns = Append(@, [p |-> a.p, u |-> a.u, w |-> FALSE])]
                     ELSE m1
           IN  Ended(Emit(m2, AttrBytes(name, a.v)), "attr"))

WriteAttrs(m, as) ==
  FoldLeft(LAMBDA acc, a : Then(acc, LAMBDA x : WriteAttr(x, a)), m, as)

(***************************************************************************)
(* Node life cycle                                                         *)
(***************************************************************************)
RECURSIVE Opened(_)
RECURSIVE EndTop(_)
RECURSIVE Next(_)
RECURSIVE Write(_, _)

(* one more child; the parent's start is completed *)
Next(m) ==
  IF m.stk = <<>> THEN m
  ELSE LET m1 == [m EXCEPT !.stk[Len(m.stk)].ch = @ + 1]
       IN  IF Top(m1).st = StOpen THEN Hard(Opened(m1)) ELSE m1

BeginCur(m, k) ==
  IF HasInd(m)
  THEN Then(Indent(m, Event(StOpen, k, 0)), LAMBDA x : Ended(x, k))
  ELSE m

BeginLeaf(m, k) == Then(Next(m), LAMBDA x : BeginCur(x, k))

OptAttr(m, name, opt) == IF opt = <<>> THEN m ELSE PrintAttr(m, B(name), opt[1])

(* what the XML declaration says; sa is -1 when absent *)
OpenDoc(m, d) ==
  LET ver == IF d.sv THEN <<>>
             ELSE IF d.fv # <<>> THEN d.fv
             ELSE IF m.cfg.ver # <<>> THEN <<m.cfg.ver>> ELSE <<B("1.0")>>
      enc0 == IF d.se THEN <<>> ELSE IF d.fe # <<>> THEN d.fe ELSE <<m.cfg.enc>>
      enc == IF enc0 # <<>> /\ enc0[1] = <<>> THEN <<>> ELSE enc0
      sa == IF d.sa = -1 THEN <<>> ELSE IF d.sa = 1 THEN <<B("yes")>> ELSE <<B("no")>>
      bad == m.cfg.enf /\ enc # <<>> /\ ~EncOk(enc[1])
      m1 == OptAttr(OptAttr(OptAttr(Emit(m, B("<?xml")), "version", ver), "encoding", enc), "standalone", sa)
      m2 == IF ver \o enc \o sa = <<>> THEN Emit(m1, <<SP>>) ELSE m1
  IN  IF bad THEN Fail(m) ELSE Emit(m2, B("?>") \o m.cfg.nl)

OpenElem(m, e) ==
  LET name == FullName(e.p, e.n)
      declare == e.p # <<>> /\ e.u # <<>>
      m1 == Emit(m, <<LT>> \o name)
      m2 == IF declare
            THEN PrintAttr([m1 EXCEPT !.stk[Len(m1.stk)].ns = <<[p |-> e.p, u |-> e.u, w |-> TRUE]>>],
                           XmlnsName(e.p), e.u)
            ELSE m1
  IN  IF m.cfg.enf /\ ~IsName(name) THEN Fail(m)
      ELSE Hard(Then(m2, LAMBDA x : WriteAttrs(x, e.at)))

OpenKind(m, n) ==
  CASE n.k = "comment" -> Emit(m, B("<!--"))
    [] n.k = "cdata"   -> Emit(m, B("<![CDATA["))
    [] n.k = "doc"     -> OpenDoc(m, n)
    [] n.k = "dtd"     ->
         IF m.cfg.enf /\ ~IsName(n.n) THEN Fail(m)
         ELSE LET m1 == Emit(m, B("<!DOCTYPE ") \o n.n)
              IN  IF n.pub = <<>> /\ n.sys = <<>> THEN m1
                  ELSE EmitExternal(Emit(m1, <<SP>>), n.pub, n.sys)
    [] n.k = "attlist" ->
         IF m.cfg.enf /\ ~IsName(n.n) THEN Fail(m)
         ELSE Emit(m, B("<!ATTLIST ") \o n.n)
    [] n.k = "elem"    -> OpenElem(m, n)

FrameOf(n) ==
  CASE n.k = "elem"    -> [Frame("elem") EXCEPT !.n = n.n, !.p = n.p, !.full = n.f, !.c = n.c]
    [] n.k = "comment" -> [Frame("comment") EXCEPT !.s = n.s]
    [] n.k = "cdata"   -> [Frame("cdata") EXCEPT !.s = n.s]
    [] n.k = "doc"     -> Frame("doc")
    [] n.k = "dtd"     -> [Frame("dtd") EXCEPT !.n = n.n]
    [] n.k = "attlist" -> [Frame("attlist") EXCEPT !.n = n.n, !.at = n.at]

Start(m, n) ==
  Then(Require(m, PlacedOk(m, n.k)), LAMBDA m1 :
  Then(Next(m1), LAMBDA m2 :
    LET m3 == [m2 EXCEPT !.stk = Append(@, FrameOf(n))]
        m4 == Indent(m3, Event(StOpen, n.k, 0))
    IN  Hard(Then(m4, LAMBDA x : OpenKind(SetLast(x, Event(StOpen, n.k, 0)), n)))))

WriteAll(m, ns) == FoldLeft(LAMBDA a, n : Then(a, LAMBDA x : Write(x, n)), m, ns)

(* declarations still owed by the start tag *)
PrintPending(m) ==
  FoldLeft(LAMBDA a, i : Then(a, LAMBDA x :
             IF Top(x).ns[i].w THEN x
             ELSE Then(PrintAttr(x, XmlnsName(Top(x).ns[i].p), Top(x).ns[i].u), LAMBDA y :
                       [y EXCEPT !.stk[Len(y.stk)].ns[i].w = TRUE])),
           m, [i \in 1..Len(Top(m).ns) |-> i])

InlineContent == {"text", "elem", "comment", "cdata"}

OpenedKind(m, n) ==
  CASE n.k = "elem" ->
         Then(PrintPending(m), LAMBDA m1 :
           LET m2 == Emit(m1, IF n.ch = 0 /\ ~n.full /\ n.c = <<>> THEN B("/>") ELSE <<GT>>)
           IN  FoldLeft(LAMBDA a, c : Then(a, LAMBDA x :
                          IF c.k \in InlineContent THEN Write(x, c) ELSE Fail(x)), m2, n.c))
    [] n.k = "comment" -> IF n.s = <<>> THEN m ELSE Write(m, [k |-> "ccontent", s |-> n.s])
    [] n.k = "cdata"   -> IF n.s = <<>> THEN m ELSE Write(m, [k |-> "cdcontent", s |-> n.s])
    [] n.k = "doc"     -> m
    [] n.k = "dtd"     -> IF n.ch > 0 THEN Emit(m, B(" [")) ELSE m
    [] n.k = "attlist" -> WriteAll(m, n.at)

Opened(m) ==
  LET n == [Top(m) EXCEPT !.st = StOpened]
      m1 == SetTop(m, [n EXCEPT !.c = <<>>, !.s = <<>>, !.at = <<>>])
      e == Event(StOpened, n.k, n.ch)
  IN  Then(Indent(m1, e), LAMBDA m2 : Hard(OpenedKind(SetLast(m2, e), n)))

EndKind(m, prev) ==
  LET n == Top(m) IN
  CASE n.k = "comment" -> IF m.cfg.enf /\ n.tail # <<>> /\ n.tail[Len(n.tail)] = 45
                          THEN Fail(m) ELSE Emit(m, B("-->"))
    [] n.k = "cdata"   -> Emit(m, B("]]>"))
    [] n.k = "doc"     -> m
    [] n.k = "dtd"     -> Emit(m, IF n.ch > 0 THEN B("]>") ELSE <<GT>>)
    [] n.k = "attlist" -> Emit(m, <<GT>>)
    [] n.k = "elem"    -> IF prev # StOpen \/ n.full \/ n.ch > 0
                          THEN Emit(m, B("</") \o FullName(n.p, n.n) \o <<GT>>) ELSE m

EndTop(m) ==
  LET prev == Top(m).st
      m1 == IF prev = StOpen THEN Hard(Opened(m)) ELSE m
  IN  Then(m1, LAMBDA x :
        LET e == Event(StEnded, Top(x).k, Top(x).ch)
        IN  Then(Hard(Indent(x, e)), LAMBDA y :
            Then(EndKind(y, prev), LAMBDA z :
              [SetLast(z, e) EXCEPT !.stk = SubSeq(@, 1, Len(@) - 1)])))

(***************************************************************************)
(* Writing nodes                                                           *)
(***************************************************************************)
WriteRaw(m, s) == Then(BeginCur(m, "raw"), LAMBDA x : Ended(Emit(x, s), "raw"))

WriteText(m, n) ==
  LET s == Wrap(m, n.s) IN
  Then(Require(m, PlacedOk(m, "text")), LAMBDA m1 :
  Then(BeginLeaf(m1, "text"), LAMBDA x : Ended(Emit(x, EscText(s)), "text")))

(* what the open comment or CDATA section ends with so far *)
CTail(m) == IF m.stk = <<>> THEN <<>> ELSE Top(m).tail
PushTail(m, s) ==
  IF m.stk = <<>> THEN m ELSE [m EXCEPT !.stk[Len(m.stk)].tail = Last2(@ \o Last2(s))]

CommentSeamOk(m, s) ==
  CTail(m) # <<>> /\ s # <<>> => ~(CTail(m)[Len(CTail(m))] = 45 /\ s[1] = 45)

CommentContentOk(m, s) ==
  /\ ~HasSub(s, B("--"))
  /\ CommentSeamOk(m, s)
  /\ CharsOk(s, m.cfg.strict)

(* The seam is looked at again after the node's inline content, if it was
   still pending, has been written: a refusal then is not inert. *)
WriteCommentContent(m, n) ==
  LET s == Wrap(m, n.s) IN
  Then(Require(m, PlacedOk(m, "ccontent") /\ CommentContentOk(m, s)), LAMBDA m1 :
  Then(BeginLeaf(m1, "ccontent"), LAMBDA x :
    IF x.cfg.enf /\ ~CommentSeamOk(x, s) THEN Fail(x)
    ELSE Ended(PushTail(Emit(x, s), s), "ccontent")))

CDataSeamOk(m, s) == ~HasSub(CTail(m) \o (IF Len(s) <= 2 THEN s ELSE SubSeq(s, 1, 2)), B("]]>"))

CDataContentOk(m, s) ==
  /\ ~HasSub(s, B("]]>"))
  /\ CDataSeamOk(m, s)
  /\ CharsOk(s, m.cfg.strict)

WriteCDataContent(m, n) ==
  Then(Require(m, PlacedOk(m, "cdcontent") /\ CDataContentOk(m, n.s)), LAMBDA m1 :
  Then(BeginLeaf(m1, "cdcontent"), LAMBDA x :
    IF x.cfg.enf /\ ~CDataSeamOk(x, n.s) THEN Fail(x)
    ELSE Ended(PushTail(Emit(x, n.s), n.s), "cdcontent")))

PIOk(m, n) ==
  /\ LowerAscii(n.n) # B("xml")
  /\ NameOk(n.n)
  /\ ~HasSub(n.s, B("?>"))
  /\ CharsOk(n.s, m.cfg.strict)

WritePI(m, n) ==
  Then(Require(m, PlacedOk(m, "pi") /\ PIOk(m, n)), LAMBDA m1 :
  Then(BeginLeaf(m1, "pi"), LAMBDA m2 :
  Then(WriteRaw(Emit(m2, B("<?") \o n.n \o <<SP>>), n.s), LAMBDA x :
    Ended(Emit(x, B("?>")), "pi"))))

WriteDTDElem(m, n) ==
  Then(Require(m, PlacedOk(m, "dtdelem") /\ IsName(n.n) /\ n.s # <<>>), LAMBDA m1 :
  Then(BeginLeaf(m1, "dtdelem"), LAMBDA x :
    Ended(Emit(x, B("<!ELEMENT ") \o n.n \o <<SP>> \o n.s \o <<GT>>), "dtdelem")))

WriteDTDEntity(m, n) ==
  LET ext == n.sys # <<>> \/ n.pub # <<>> IN
  Then(Require(m, PlacedOk(m, "dtdent") /\ IsName(n.n)), LAMBDA m1 :
  Then(BeginLeaf(m1, "dtdent"), LAMBDA m2 :
    LET m3 == Emit(m2, B("<!ENTITY ") \o (IF n.f THEN B("% ") ELSE <<>>) \o n.n \o <<SP>>)
        m4 == IF ext
              THEN IF m.cfg.enf /\ n.s # <<>> THEN Fail(m3)
                   ELSE Then(EmitExternal(m3, n.pub, n.sys), LAMBDA x :
                     IF n.nd = <<>> THEN x
                     ELSE IF n.f THEN Fail(x)
                     ELSE IF m.cfg.enf /\ ~NameOk(n.nd) THEN Fail(x)
                     ELSE Emit(x, B(" NDATA ") \o n.nd))
              ELSE IF m.cfg.enf /\ n.nd # <<>> THEN Fail(m3)
              ELSE EmitLiteral(m3, n.s)
    IN  Then(m4, LAMBDA x : Ended(Emit(x, <<GT>>), "dtdent"))))

(* DTDAttrInfer, Default, Required, Implied, Fixed *)
DfInfer == 0  DfDefault == 1  DfRequired == 2  DfImplied == 3  DfFixed == 4

EmitDefault(m, df, v) ==
  LET lit == <<DQ>> \o EscAttr(v) \o <<DQ>> IN
  CASE df = DfDefault \/ (df = DfInfer /\ v # <<>>) -> Emit(m, lit)
    [] df = DfFixed -> Emit(m, B("#FIXED ") \o lit)
    [] df = DfRequired -> IF v # <<>> THEN Fail(m) ELSE Emit(m, B("#REQUIRED"))
    [] df = DfImplied \/ (df = DfInfer /\ v = <<>>) -> IF v # <<>> THEN Fail(m) ELSE Emit(m, B("#IMPLIED"))
    [] OTHER -> Fail(m)

WriteDTDAttr(m, n) ==
  Then(Require(m, PlacedOk(m, "dtdattr") /\ IsName(n.n) /\ n.ty # <<>>), LAMBDA m1 :
  Then(BeginLeaf(m1, "dtdattr"), LAMBDA m2 :
  Then(EmitDefault(Emit(m2, <<SP>> \o n.n \o <<SP>> \o n.ty \o <<SP>>), n.df, n.s), LAMBDA x :
    Ended(x, "dtdattr"))))

WriteNotation(m, n) ==
  Then(Require(m, PlacedOk(m, "notation") /\ IsName(n.n) /\ (n.pub # <<>> \/ n.sys # <<>>)), LAMBDA m1 :
  Then(BeginLeaf(m1, "notation"), LAMBDA m2 :
    LET m3 == Emit(m2, B("<!NOTATION ") \o n.n \o <<SP>>)
        m4 == IF n.sys # <<>> THEN EmitExternal(m3, n.pub, n.sys)
              ELSE IF n.pub # <<>> THEN EmitPublic(m3, n.pub, <<>>)
              ELSE m3
    IN  Then(m4, LAMBDA x : Ended(Emit(x, <<GT>>), "notation"))))

Write(m, n) ==
  CASE n.k = "text"      -> WriteText(m, n)
    [] n.k = "raw"       -> WriteRaw(m, n.s)
    [] n.k = "attr"      -> WriteAttr(m, n)
    [] n.k = "ccontent"  -> WriteCommentContent(m, n)
    [] n.k = "cdcontent" -> WriteCDataContent(m, n)
    [] n.k = "pi"        -> WritePI(m, n)
    [] n.k = "dtdelem"   -> WriteDTDElem(m, n)
    [] n.k = "dtdent"    -> WriteDTDEntity(m, n)
    [] n.k = "dtdattr"   -> WriteDTDAttr(m, n)
    [] n.k = "notation"  -> WriteNotation(m, n)
    [] n.k \in Startable -> Then(Start(m, n), LAMBDA x : Hard(EndTop(x)))

(***************************************************************************)
(* Ending nodes                                                            *)
(***************************************************************************)
Named == {"elem", "dtd", "attlist"}

EndMatches(m, kind, names) ==
  /\ m.stk # <<>>
  /\ Top(m).k = kind
  /\ CASE Len(names) = 0 -> TRUE
       [] Len(names) = 1 -> kind \in Named /\ Top(m).n = names[1]
       [] Len(names) = 2 -> kind = "elem" /\ Top(m).p = names[1] /\ Top(m).n = names[2]
       [] OTHER -> FALSE

End(m, kind, names) == IF EndMatches(m, kind, names) THEN EndTop(m) ELSE Rej(m)

EndFull(m, names) ==
  IF EndMatches(m, "elem", names)
  THEN EndTop([m EXCEPT !.stk[Len(m.stk)].full = TRUE])
  ELSE Rej(m)

EndMany(m, k) ==
  FoldLeft(LAMBDA a, i : Then(a, LAMBDA x : Hard(EndTop(x))), m, [i \in 1..k |-> i])

MaxOf(a, b) == IF a > b THEN a ELSE b

EndDownTo(m, left, kind, names) ==
  LET k == MaxOf(Len(m.stk) - left, 0)
      r == Then(EndMany(m, k), LAMBDA x : End(x, kind, names))
  IN  IF k > 0 THEN Hard(r) ELSE r

(***************************************************************************)
(* Calls                                                                   *)
(***************************************************************************)
(* a list stops at its first error; what came before it stays written *)
StartAll(m, ns) == FoldLeft(LAMBDA a, n : Then(a, LAMBDA x : Start(x, n)), m, ns)

(* Layout switched off, on again with the indenter there was (the one the
   configuration describes, if there was none), or started afresh with a new
   standard indenter, or with its zero value, or handed to the custom indenter
   alone or with the standard one inside.  What is open stays open. *)
SetIndenter(m, k) ==
  CASE k = "none" -> [m EXCEPT !.cfg.rec = FALSE, !.cfg.ind = "none"]
    [] k = "back" -> [m EXCEPT !.cfg.rec = FALSE, !.cfg.ind = "std"]
    [] k = "std"  -> [m EXCEPT !.cfg.rec = FALSE, !.cfg.ind = "std", !.cfg.istr = <<SP>>, !.lv = <<0>>]
    [] k = "zero" -> [m EXCEPT !.cfg.rec = FALSE, !.cfg.ind = "std", !.cfg.istr = <<>>, !.lv = <<0>>]
    [] k = "rec"    -> [m EXCEPT !.cfg.rec = TRUE, !.cfg.ind = "none"]
    [] k = "recstd" -> [m EXCEPT !.cfg.rec = TRUE, !.cfg.ind = "std"]

Do(m, op) ==
  CASE op.o = "start"  -> StartAll(m, op.ns)
    [] op.o = "write"  -> WriteAll(m, op.ns)
    [] op.o = "attrs"  -> WriteAttrs(m, op.ns)
    [] op.o = "block"  -> Then(WriteAll(StartAll(m, <<op.n>>), op.ns), LAMBDA x : End(x, op.n.k, <<>>))
    [] op.o = "next"   -> Next(m)
    [] op.o = "end"    -> End(m, op.k, op.names)
    [] op.o = "endfull"-> EndFull(m, op.names)
    [] op.o = "endany" -> IF m.stk = <<>> THEN Rej(m) ELSE EndTop(m)
    [] op.o \in {"endall", "endallflush"} -> EndMany(m, Len(m.stk))
    [] op.o = "enddoc" -> EndDownTo(m, 1, "doc", <<>>)
    \* op.d: how many nodes were open at the level to go back to
    [] op.o = "endto"  -> EndDownTo(m, op.d + 1, op.k, op.names)
    [] op.o = "flush"  -> m
    [] op.o = "setenf" -> [m EXCEPT !.cfg.enf = op.v]
    [] op.o = "setstrict" -> [m EXCEPT !.cfg.strict = op.v]
    [] op.o = "setver" -> [m EXCEPT !.cfg.ver = op.s]
    [] op.o = "setnl" -> [m EXCEPT !.cfg.nl = op.s]
    [] op.o = "setistr" -> [m EXCEPT !.cfg.istr = op.s]
    [] op.o = "setind" -> SetIndenter(m, op.k)

Fresh(m) == [m EXCEPT !.out = <<>>, !.evs = <<>>, !.res = "ok"]

Apply(m, op) == Do(Fresh(m), op)

(* what later calls depend on *)
Core(m) == [m EXCEPT !.out = <<>>, !.evs = <<>>, !.res = "ok", !.nev = 0]

(***************************************************************************)
(* Properties of the design, checked on every transition of the bounded    *)
(* models: a rejected single call is inert.                                *)
(***************************************************************************)
SingleCall(op) ==
  CASE op.o \in {"start", "write", "attrs"} -> Len(op.ns) = 1
    [] op.o = "block" -> FALSE
    [] OTHER -> TRUE

RejectionInert(m, op, m1) ==
  m1.res = "rej" /\ SingleCall(op) => /\ m1.out = <<>>
                                      /\ m1.evs = <<>>
                                      /\ Core(m1) = Core(m)
=============================================================================
