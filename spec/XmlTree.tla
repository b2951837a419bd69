------------------------------- MODULE XmlTree -------------------------------
(***************************************************************************)
(* What a history of accepted calls means: the sequence of reader events   *)
(* (see XmlGrammar) a document with that content must yield.  No bytes, no *)
(* escaping, no quoting: just the nodes in the order and nesting in which  *)
(* the calls put them.  Only histories without raw strings have one.       *)
(***************************************************************************)
EXTENDS Chars


(* characters XML cannot carry become U+FFFD *)
Clean(s) == IF \A i \in 1..Len(s) : IsXmlChar(s[i]) THEN s
            ELSE [i \in 1..Len(s) |-> IF IsXmlChar(s[i]) THEN s[i] ELSE FFFD]

(* line ends as an XML processor reports them *)
LineEnds(s) ==
  IF ~Has(s, CR) THEN s
  ELSE FoldLeft(LAMBDA a, i :
         IF s[i] = CR THEN Append(a, NLC)
         ELSE IF s[i] = NLC /\ i > 1 /\ s[i-1] = CR THEN a
         ELSE Append(a, s[i]), <<>>, [i \in 1..Len(s) |-> i])

TInit(nl, enc, ver) == [evs |-> <<>>, stk |-> <<>>, nl |-> LineEnds(nl), enc |-> enc, ver |-> ver]

LOCAL LTrim(s) ==
  LET k == {i \in 1..Len(s) : ~IsWS(s[i])}
  IN  IF k = {} THEN <<>> ELSE SubSeq(s, CHOOSE i \in k : \A j \in k : i <= j, Len(s))

LOCAL Full(p, n) == IF p = <<>> THEN n ELSE p \o <<58>> \o n

LOCAL Add(t, ev) == [t EXCEPT !.evs = Append(@, ev)]
LOCAL Here(t) == t.stk[Len(t.stk)]           \* [k, idx]: kind and index of its event

TextTo(t, s) ==
  IF s = <<>> THEN t
  ELSE IF t.evs # <<>> /\ t.evs[Len(t.evs)].e = "t"
       THEN [t EXCEPT !.evs[Len(t.evs)].s = @ \o s]
       ELSE Add(t, [e |-> "t", s |-> s])

LOCAL Bind(t, i, p, u) == [t EXCEPT !.evs[i].ns = @ \cup {<<p, u>>}]

(* Is there an open construct of kind k?  Where there is none the call has no
   meaning as a tree; whether the writer may accept it is XmlWriter's business. *)
LOCAL Within(t, k) == IF t.stk = <<>> THEN FALSE ELSE Here(t).k = k

AttrTo(t, a) ==
  IF ~Within(t, "elem") THEN t ELSE
  LET i == Here(t).i
      t1 == [t EXCEPT !.evs[i].at = Append(@, <<Full(a.p, a.n), Clean(a.v)>>)]
  IN  IF a.u # <<>> THEN Bind(t1, i, a.p, Clean(a.u)) ELSE t1

LOCAL DefaultOf(n) ==
  CASE n.df = 1 \/ (n.df = 0 /\ n.s # <<>>) -> <<"default", Clean(n.s)>>
    [] n.df = 4 -> <<"fixed", Clean(n.s)>>
    [] n.df = 2 -> <<"required", <<>>>>
    [] OTHER -> <<"implied", <<>>>>

DefTo(t, n) ==
  IF ~Within(t, "attlist") THEN t ELSE
  [t EXCEPT !.evs[Here(t).i].at = Append(@, <<n.n, n.ty>> \o DefaultOf(n))]

LOCAL OptStr(s) == IF s = <<>> THEN <<>> ELSE <<s>>

ContentTo(t, s) ==
  IF ~(Within(t, "comment") \/ Within(t, "cdata")) THEN t ELSE
  [t EXCEPT !.evs[Here(t).i].s = @ \o s]

RECURSIVE TStart(_, _)
RECURSIVE TEnd(_)
RECURSIVE TWrite(_, _)

(* the inline content of a node comes when its start is completed *)
LOCAL Inner(t, n) ==
  CASE n.k = "elem" -> FoldLeft(LAMBDA a, c : TWrite(a, c), t, n.c)
    [] n.k \in {"comment", "cdata"} -> ContentTo(t, n.s)
    [] n.k = "attlist" -> FoldLeft(LAMBDA a, c : DefTo(a, c), t, n.at)
    [] OTHER -> t

(* pend: the node with inline content still to come, if any *)
LOCAL Settle(t) ==
  IF t.stk = <<>> THEN t
  ELSE LET f == Here(t) IN
       IF f.n = <<>> THEN t
       ELSE Inner([t EXCEPT !.stk[Len(t.stk)].n = <<>>], f.n[1])

LOCAL PushN(t, n, ev) ==
  LET t1 == Add(t, ev)
  IN  [t1 EXCEPT !.stk = Append(@, [k |-> n.k, i |-> Len(t1.evs), n |-> <<n>>])]

LOCAL DocEv(t, n) ==
  LET ver == IF n.sv THEN <<>> ELSE IF n.fv # <<>> THEN <<Clean(n.fv[1])>>
             ELSE IF t.ver # <<>> THEN <<Clean(t.ver)>> ELSE <<B("1.0")>>
      en0 == IF n.se THEN <<>> ELSE IF n.fe # <<>> THEN n.fe ELSE <<t.enc>>
      en == IF en0 # <<>> /\ en0[1] = <<>> THEN <<>> ELSE en0
      sa == IF n.sa = -1 THEN <<>> ELSE IF n.sa = 1 THEN <<B("yes")>> ELSE <<B("no")>>
  IN  [e |-> "x", v |-> <<ver, en, sa>>]

TStart(t0, n) ==
  LET t == Settle(t0) IN
  CASE n.k = "elem" ->
         LET t1 == PushN(t, n, [e |-> "s", n |-> Full(n.p, n.n), at |-> <<>>, ns |-> {}])
             t2 == IF n.p # <<>> /\ n.u # <<>> THEN Bind(t1, Len(t1.evs), n.p, Clean(n.u)) ELSE t1
         IN  FoldLeft(LAMBDA a, x : AttrTo(a, x), t2, n.at)
    [] n.k = "comment" -> PushN(t, n, [e |-> "c", s |-> <<>>])
    [] n.k = "cdata" -> PushN(t, n, [e |-> "cd", s |-> <<>>])
    [] n.k = "doc" -> TextTo(PushN(t, n, DocEv(t, n)), t.nl)
    [] n.k = "dtd" -> PushN(t, n, [e |-> "d", n |-> n.n, pub |-> OptStr(n.pub), sys |-> OptStr(n.sys)])
    [] n.k = "attlist" -> PushN(t, n, [e |-> "al", n |-> n.n, at |-> <<>>])

TEnd(t0) ==
  IF t0.stk = <<>> THEN t0 ELSE
  LET t == Settle(t0)
      f == Here(t)
      t1 == [t EXCEPT !.stk = SubSeq(@, 1, Len(@) - 1)]
  IN  CASE f.k = "elem" -> Add(t1, [e |-> "e", n |-> t.evs[f.i].n])
        [] f.k = "dtd" -> Add(t1, [e |-> "de"])
        [] OTHER -> t1

TWrite(t0, n) ==
  IF n.k = "attr" THEN AttrTo(t0, n)
  ELSE IF n.k \in {"elem", "comment", "cdata", "attlist"} THEN TEnd(TStart(t0, n))
  ELSE LET t == Settle(t0) IN
  CASE n.k = "text" -> TextTo(t, Clean(n.s))
    [] n.k \in {"ccontent", "cdcontent"} -> ContentTo(t, n.s)
    [] n.k = "pi" -> Add(t, [e |-> "pi", n |-> n.n, s |-> LineEnds(LTrim(n.s))])
    [] n.k = "dtdelem" -> Add(t, [e |-> "el", n |-> n.n, s |-> n.s])
    [] n.k = "dtdent" ->
         LET ext == n.sys # <<>> \/ n.pub # <<>>
         IN  Add(t, [e |-> "en", n |-> n.n, pe |-> n.f, s |-> IF ext THEN <<>> ELSE <<n.s>>,
                     pub |-> OptStr(n.pub), sys |-> OptStr(n.sys), nd |-> OptStr(n.nd)])
    [] n.k = "dtdattr" -> DefTo(t, n)
    [] n.k = "notation" -> Add(t, [e |-> "no", n |-> n.n, pub |-> OptStr(n.pub), sys |-> OptStr(n.sys)])

LOCAL Times(t, k) == FoldLeft(LAMBDA a, i : TEnd(a), t, [i \in 1..k |-> i])

TApply(t, op) ==
  CASE op.o = "start" -> FoldLeft(LAMBDA a, n : TStart(a, n), t, op.ns)
    [] op.o \in {"write", "attrs"} -> FoldLeft(LAMBDA a, n : TWrite(a, n), t, op.ns)
    [] op.o = "block" -> TEnd(FoldLeft(LAMBDA a, n : TWrite(a, n), TStart(t, op.n), op.ns))
    [] op.o = "next" -> Settle(t)
    [] op.o \in {"end", "endfull", "endany"} -> TEnd(t)
    [] op.o \in {"endall", "endallflush", "enddoc"} -> Times(t, Len(t.stk))
    [] op.o = "endto" -> Times(t, Len(t.stk) - op.d)
    [] OTHER -> t

(* comparison with the reader: declarations are a set, line ends normalised
   where they are not escaped, empty text is no text *)
LOCAL IsXmlns(name) == name = B("xmlns") \/ MatchAt(name, 1, B("xmlns:"))
LOCAL NsOf(name) == IF name = B("xmlns") THEN <<>> ELSE SubSeq(name, 7, Len(name))

Reported(ev) ==          \* a reader event in the tree's terms
  IF ev.e = "s"
  THEN LET own == SelectSeq(ev.at, LAMBDA a : ~IsXmlns(a[1]))
           ns == SelectSeq(ev.at, LAMBDA a : IsXmlns(a[1]))
       IN  [e |-> "s", n |-> ev.n, at |-> own,
            ns |-> {<<NsOf(ns[i][1]), ns[i][2]>> : i \in 1..Len(ns)}]
  ELSE IF ev.e = "de" THEN [e |-> "de"]
  ELSE ev

Expected(ev) ==
  IF ev.e \in {"c", "cd"} THEN [ev EXCEPT !.s = LineEnds(@)]
  ELSE ev

SameTree(t, evs) ==
  /\ Len(evs) = Len(t.evs)
  /\ \A i \in 1..Len(evs) : Reported(evs[i]) = Expected(t.evs[i])
=============================================================================
