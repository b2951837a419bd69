----------------------------- MODULE XmlGrammar -----------------------------
(***************************************************************************)
(* An XML reader, written from the XML 1.0 recommendation and not from the *)
(* writer: Parse(s) is [ok, why, evs], the events being records            *)
(*                                                                         *)
(*   x   XML declaration      v = <<version, encoding, standalone>>        *)
(*   s   start tag            n = name, at = <<name, value>> pairs         *)
(*   e   end tag              n                                            *)
(*   t   character data       s (references resolved, line ends normalised)*)
(*   cd  CDATA section        s                                            *)
(*   c   comment              s                                            *)
(*   pi  processing instr.    n, s                                         *)
(*   d   DOCTYPE              n, pub, sys       (pub, sys: optional)       *)
(*   de  end of DOCTYPE       v = whether there was an internal subset     *)
(*   el  ELEMENT              n, s                                         *)
(*   en  ENTITY               n, pe, s, pub, sys, nd                       *)
(*   al  ATTLIST              n, at = <<name, type, default, value>>       *)
(*   no  NOTATION             n, pub, sys                                  *)
(*                                                                         *)
(* It accepts a sequence of content and markup declarations rather than    *)
(* exactly one root element, because the writer can write fragments.       *)
(***************************************************************************)
EXTENDS Chars, FiniteSets, FiniteSetsExt

LOCAL Window == 48

RECURSIVE FindPat(_, _, _)
(* the first position >= i at which pat occurs in s, or 0 *)
FindPat(s, i, pat) ==
  IF i > Len(s) THEN 0
  ELSE LET hi == IF i + Window > Len(s) THEN Len(s) ELSE i + Window
           hits == {j \in i..hi : s[j] = pat[1] /\ MatchAt(s, j, pat)}
       IN  IF hits # {} THEN Min(hits) ELSE FindPat(s, hi + 1, pat)

LOCAL In(c, cls) ==
  CASE cls = "ws"   -> IsWS(c)
    [] cls = "name" -> IsNameChar(c)
    [] cls = "nosp" -> ~IsWS(c)          \* anything but white space
    [] cls = "type" -> ~IsWS(c) /\ c # GT
    [] cls = "text" -> c # LT

RECURSIVE SkipClass(_, _, _)
(* the first position >= i whose character is not in the class *)
SkipClass(s, i, cls) ==
  IF i > Len(s) THEN i
  ELSE LET hi == IF i + Window > Len(s) THEN Len(s) ELSE i + Window
           hits == {j \in i..hi : ~In(s[j], cls)}
       IN  IF hits # {} THEN Min(hits) ELSE SkipClass(s, hi + 1, cls)

SkipWS(s, i) == SkipClass(s, i, "ws")
At(s, i) == IF i >= 1 /\ i <= Len(s) THEN s[i] ELSE -1000

AllXml(s) == \A i \in 1..Len(s) : IsXmlChar(s[i])

(* https://www.w3.org/TR/xml/#sec-line-ends *)
EOL(s) ==
  IF ~Has(s, CR) THEN s
  ELSE FoldLeft(LAMBDA a, i :
         IF s[i] = CR THEN Append(a, NLC)
         ELSE IF s[i] = NLC /\ i > 1 /\ s[i-1] = CR THEN a
         ELSE Append(a, s[i]), <<>>, [i \in 1..Len(s) |-> i])

Ref(name) ==
  CASE name = B("amp") -> AMP
    [] name = B("lt") -> LT
    [] name = B("gt") -> GT
    [] name = B("quot") -> DQ
    [] name = B("apos") -> SQ
    [] OTHER -> -1

LOCAL HexVal(c) ==
  IF IsDigit(c) THEN c - 48
  ELSE IF c >= 65 /\ c <= 70 THEN c - 55
  ELSE IF c >= 97 /\ c <= 102 THEN c - 87 ELSE -1

(* value of digits in a base, or -1 *)
LOCAL NumVal(ds, base) ==
  IF ds = <<>> THEN -1
  ELSE FoldLeft(LAMBDA a, c :
         IF a = -1 \/ HexVal(c) = -1 \/ HexVal(c) >= base THEN -1
         ELSE IF a > MaxCP THEN a ELSE a * base + HexVal(c), 0, ds)

RefValue(name) ==
  IF name # <<>> /\ name[1] = 35
  THEN LET v == IF Len(name) >= 2 /\ name[2] = 120
                THEN NumVal(SubSeq(name, 3, Len(name)), 16)
                ELSE NumVal(SubSeq(name, 2, Len(name)), 10)
       IN  IF v >= 0 /\ IsXmlChar(v) THEN v ELSE -1
  ELSE Ref(name)

(* resolve references; attr: literal white space becomes a space *)
Decode(raw, attr) ==
  IF ~\E i \in 1..Len(raw) : raw[i] = AMP \/ (attr /\ IsWS(raw[i]))
  THEN [ok |-> TRUE, s |-> raw]
  ELSE
  LET r == FoldLeft(LAMBDA a, c :
             IF ~a.ok THEN a
             ELSE IF a.inref
                  THEN IF c = 59
                       THEN LET v == RefValue(a.ref)
                            IN IF v = -1 THEN [a EXCEPT !.ok = FALSE]
                               ELSE [a EXCEPT !.inref = FALSE, !.ref = <<>>, !.s = Append(@, v)]
                       ELSE [a EXCEPT !.ref = Append(@, c)]
             ELSE IF c = AMP THEN [a EXCEPT !.inref = TRUE]
             ELSE IF attr /\ IsWS(c) THEN [a EXCEPT !.s = Append(@, SP)]
             ELSE [a EXCEPT !.s = Append(@, c)],
           [ok |-> TRUE, inref |-> FALSE, ref |-> <<>>, s |-> <<>>], raw)
  IN  [ok |-> r.ok /\ ~r.inref, s |-> r.s]

------------------------------------------------------------------------------
(* Pieces.  Each returns [ok, i, ...] with i the position after the piece.  *)

NameAt(s, i) ==
  IF i <= Len(s) /\ IsNameStart(s[i])
  THEN LET j == SkipClass(s, i, "name") IN [ok |-> TRUE, i |-> j, n |-> SubSeq(s, i, j - 1)]
  ELSE [ok |-> FALSE, i |-> i, n |-> <<>>]

QuotedAt(s, i) ==
  IF At(s, i) \in {DQ, SQ}
  THEN LET j == FindPat(s, i + 1, <<s[i]>>)
       IN  IF j = 0 THEN [ok |-> FALSE, i |-> i, s |-> <<>>]
           ELSE LET v == SubSeq(s, i + 1, j - 1)
                IN  [ok |-> AllXml(v), i |-> j + 1, s |-> v]
  ELSE [ok |-> FALSE, i |-> i, s |-> <<>>]

AttValueAt(s, i) ==
  LET q == QuotedAt(s, i)
      d == Decode(EOL(q.s), TRUE)
  IN  IF q.ok /\ ~Has(q.s, LT) /\ d.ok THEN [ok |-> TRUE, i |-> q.i, s |-> d.s]
      ELSE [ok |-> FALSE, i |-> i, s |-> <<>>]

(* white space is required here *)
Space(s, i) == [ok |-> IsWS(At(s, i)), i |-> SkipWS(s, i)]

(* S? = S? ; position after, or 0 *)
EqAt(s, i) == LET j == SkipWS(s, i) IN IF At(s, j) = 61 THEN SkipWS(s, j + 1) ELSE 0

(* S Attribute, if there is one; the position after it or after the space *)
AttrAt(s, i) ==
  LET w == SkipWS(s, i) IN
  IF w = i \/ ~IsNameStart(At(s, w)) THEN [more |-> FALSE, ok |-> TRUE, i |-> w, at |-> <<>>]
  ELSE LET nm == NameAt(s, w)
           e == EqAt(s, nm.i)
           v == AttValueAt(s, e)
       IN  IF e = 0 \/ ~v.ok THEN [more |-> TRUE, ok |-> FALSE, i |-> w, at |-> <<>>]
           ELSE [more |-> TRUE, ok |-> TRUE, i |-> v.i, at |-> <<nm.n, v.s>>]

RECURSIVE AttrsAt(_, _, _)
(* (S Attribute)* S?, for the few attributes of an XML declaration *)
AttrsAt(s, i, acc) ==
  LET a == AttrAt(s, i)
  IN  IF a.more /\ a.ok THEN AttrsAt(s, a.i, Append(acc, a.at))
      ELSE [ok |-> a.ok, i |-> a.i, at |-> acc]

DistinctNames(at) == Cardinality({at[i][1] : i \in 1..Len(at)}) = Len(at)

(* 'SYSTEM' S lit | 'PUBLIC' S pubid S lit (| 'PUBLIC' S pubid when pubonly) *)
ExternalAt(s, i, pubonly) ==
  LET bad == [ok |-> FALSE, i |-> i, pub |-> <<>>, sys |-> <<>>] IN
  IF MatchAt(s, i, B("SYSTEM"))
  THEN LET w == Space(s, i + 6)
           q == QuotedAt(s, w.i)
       IN  IF w.ok /\ q.ok THEN [ok |-> TRUE, i |-> q.i, pub |-> <<>>, sys |-> <<q.s>>] ELSE bad
  ELSE IF MatchAt(s, i, B("PUBLIC"))
  THEN LET w == Space(s, i + 6)
           p == QuotedAt(s, w.i)
           w2 == Space(s, p.i)
           q == QuotedAt(s, w2.i)
       IN  IF ~w.ok \/ ~p.ok \/ ~PubidOk(p.s) THEN bad
           ELSE IF w2.ok /\ q.ok THEN [ok |-> TRUE, i |-> q.i, pub |-> <<p.s>>, sys |-> <<q.s>>]
           ELSE IF pubonly THEN [ok |-> TRUE, i |-> p.i, pub |-> <<p.s>>, sys |-> <<>>]
           ELSE bad
  ELSE bad

IsExternal(s, i) == MatchAt(s, i, B("SYSTEM")) \/ MatchAt(s, i, B("PUBLIC"))

(* one attribute type: a word or a parenthesised group, perhaps after NOTATION *)
TypeAt(s, i) ==
  LET g == IF MatchAt(s, i, B("NOTATION")) THEN SkipWS(s, i + 8) ELSE i IN
  IF At(s, g) = 40
  THEN LET j == FindPat(s, g, B(")")) IN [ok |-> j > 0, i |-> j + 1, n |-> SubSeq(s, i, j)]
  ELSE LET j == SkipClass(s, i, "type") IN [ok |-> j > i, i |-> j, n |-> SubSeq(s, i, j - 1)]

DefaultAt(s, i) ==
  IF MatchAt(s, i, B("#REQUIRED")) THEN [ok |-> TRUE, i |-> i + 9, d |-> "required", s |-> <<>>]
  ELSE IF MatchAt(s, i, B("#IMPLIED")) THEN [ok |-> TRUE, i |-> i + 8, d |-> "implied", s |-> <<>>]
  ELSE IF MatchAt(s, i, B("#FIXED"))
  THEN LET w == Space(s, i + 6)
           v == AttValueAt(s, w.i)
       IN  [ok |-> w.ok /\ v.ok, i |-> v.i, d |-> "fixed", s |-> v.s]
  ELSE LET v == AttValueAt(s, i) IN [ok |-> v.ok, i |-> v.i, d |-> "default", s |-> v.s]

RECURSIVE AttDefsAt(_, _, _)
AttDefsAt(s, i, acc) ==
  LET w == SkipWS(s, i) IN
  IF w = i \/ ~IsNameStart(At(s, w)) THEN [ok |-> TRUE, i |-> w, at |-> acc]
  ELSE LET nm == NameAt(s, w)
           w1 == Space(s, nm.i)
           ty == TypeAt(s, w1.i)
           w2 == Space(s, ty.i)
           df == DefaultAt(s, w2.i)
       IN  IF ~(w1.ok /\ ty.ok /\ w2.ok /\ df.ok) THEN [ok |-> FALSE, i |-> w, at |-> acc]
           ELSE AttDefsAt(s, df.i, Append(acc, <<nm.n, ty.n, df.d, df.s>>))

------------------------------------------------------------------------------
(* The reader: one item per step.                                           *)

LOCAL Bad(st, why) == [st EXCEPT !.ok = FALSE, !.why = why]
LOCAL Go(st, i, ev) == [st EXCEPT !.i = i, !.evs = Append(@, ev)]

LOCAL TextStep(s, st) ==
  LET j == SkipClass(s, st.i, "text")
      raw == SubSeq(s, st.i, j - 1)
      d == Decode(EOL(raw), FALSE)
  IN  IF ~AllXml(raw) THEN Bad(st, "char")
      ELSE IF HasSub(raw, B("]]>")) THEN Bad(st, "]]> in text")
      ELSE IF ~d.ok THEN Bad(st, "reference")
      ELSE Go(st, j, [e |-> "t", s |-> d.s])

LOCAL CommentStep(s, st) ==
  LET j == FindPat(s, st.i + 4, B("--"))
      v == SubSeq(s, st.i + 4, j - 1)
  IN  IF j = 0 \/ At(s, j + 2) # GT \/ ~AllXml(v) THEN Bad(st, "comment")
      ELSE Go(st, j + 3, [e |-> "c", s |-> EOL(v)])

LOCAL CDataStep(s, st) ==
  LET j == FindPat(s, st.i + 9, B("]]>"))
      v == SubSeq(s, st.i + 9, j - 1)
  IN  IF j = 0 \/ ~AllXml(v) THEN Bad(st, "cdata")
      ELSE Go(st, j + 3, [e |-> "cd", s |-> EOL(v)])

LOCAL PIStep(s, st) ==
  LET nm == NameAt(s, st.i + 2)
      j == FindPat(s, nm.i, B("?>"))
      w == SkipWS(s, nm.i)
      v == IF w >= j THEN <<>> ELSE SubSeq(s, w, j - 1)
  IN  IF ~nm.ok \/ j = 0 \/ LowerAscii(nm.n) = B("xml") \/ ~(w > nm.i \/ j = nm.i) \/ ~AllXml(v)
      THEN Bad(st, "pi")
      ELSE Go(st, j + 2, [e |-> "pi", n |-> nm.n, s |-> EOL(v)])

LOCAL Opt(at, name) ==
  LET hits == {i \in 1..Len(at) : at[i][1] = name}
  IN  IF hits = {} THEN <<>> ELSE <<at[Min(hits)][2]>>

LOCAL XmlDeclStep(s, st) ==
  LET a == AttrsAt(s, st.i + 5, <<>>)
      names == [i \in 1..Len(a.at) |-> a.at[i][1]]
      all == <<B("version"), B("encoding"), B("standalone")>>
  IN  IF ~a.ok \/ ~MatchAt(s, a.i, B("?>")) \/ ~DistinctNames(a.at)
         \/ names # SelectSeq(all, LAMBDA x : x \in ToSet(names))
      THEN Bad(st, "xmldecl")
      ELSE Go(st, a.i + 2, [e |-> "x", v |-> <<Opt(a.at, all[1]), Opt(a.at, all[2]), Opt(a.at, all[3])>>])

(* A start tag is read one attribute per step: st.tag is the tag being read. *)
LOCAL StartTagStep(s, st) ==
  LET nm == NameAt(s, st.i + 1)
  IN  IF ~nm.ok THEN Bad(st, "start tag")
      ELSE [st EXCEPT !.i = nm.i, !.tag = <<[n |-> nm.n, at |-> <<>>]>>]

LOCAL TagStep(s, st) ==
  LET t == st.tag[1]
      a == AttrAt(s, st.i)
      ev == [e |-> "s", n |-> t.n, at |-> t.at]
      out == [st EXCEPT !.tag = <<>>]
  IN  IF a.more
      THEN IF ~a.ok THEN Bad(st, "start tag")
           ELSE [st EXCEPT !.i = a.i, !.tag[1].at = Append(@, a.at)]
      ELSE IF ~DistinctNames(t.at) THEN Bad(st, "start tag")
      ELSE IF At(s, a.i) = GT THEN [Go(out, a.i + 1, ev) EXCEPT !.stk = Append(@, t.n)]
      ELSE IF MatchAt(s, a.i, B("/>")) THEN Go(Go(out, a.i, ev), a.i + 2, [e |-> "e", n |-> t.n])
      ELSE Bad(st, "start tag")

LOCAL EndTagStep(s, st) ==
  LET nm == NameAt(s, st.i + 2)
      w == SkipWS(s, nm.i)
  IN  IF ~nm.ok \/ At(s, w) # GT \/ st.stk = <<>> \/ st.stk[Len(st.stk)] # nm.n THEN Bad(st, "end tag")
      ELSE [Go(st, w + 1, [e |-> "e", n |-> nm.n]) EXCEPT !.stk = SubSeq(@, 1, Len(@) - 1)]

LOCAL DoctypeStep(s, st) ==
  LET w == Space(s, st.i + 9)
      nm == NameAt(s, w.i)
      w2 == SkipWS(s, nm.i)
      ext == IsExternal(s, w2)
      x == ExternalAt(s, w2, FALSE)
      j == IF ext THEN SkipWS(s, x.i) ELSE w2
      ev == [e |-> "d", n |-> nm.n, pub |-> IF ext THEN x.pub ELSE <<>>, sys |-> IF ext THEN x.sys ELSE <<>>]
  IN  IF ~w.ok \/ ~nm.ok \/ (ext /\ (~x.ok \/ w2 = nm.i)) \/ st.dtd \/ st.stk # <<>> THEN Bad(st, "doctype")
      ELSE IF At(s, j) = GT THEN Go(Go(st, j, ev), j + 1, [e |-> "de", v |-> FALSE])
      ELSE IF At(s, j) = 91 THEN [Go(st, j + 1, ev) EXCEPT !.dtd = TRUE]
      ELSE Bad(st, "doctype")

LOCAL ElementStep(s, st) ==
  LET w == Space(s, st.i + 9)
      nm == NameAt(s, w.i)
      w2 == Space(s, nm.i)
      j == FindPat(s, w2.i, <<GT>>)
  IN  IF ~w.ok \/ ~nm.ok \/ ~w2.ok \/ j <= w2.i THEN Bad(st, "ELEMENT")
      ELSE Go(st, j + 1, [e |-> "el", n |-> nm.n, s |-> SubSeq(s, w2.i, j - 1)])

LOCAL AttlistStep(s, st) ==
  LET w == Space(s, st.i + 9)
      nm == NameAt(s, w.i)
      a == AttDefsAt(s, nm.i, <<>>)
  IN  IF ~w.ok \/ ~nm.ok \/ ~a.ok \/ At(s, a.i) # GT THEN Bad(st, "ATTLIST")
      ELSE Go(st, a.i + 1, [e |-> "al", n |-> nm.n, at |-> a.at])

LOCAL EntityStep(s, st) ==
  LET w == Space(s, st.i + 8)
      pe == At(s, w.i) = 37
      w1 == IF pe THEN Space(s, w.i + 1) ELSE w
      nm == NameAt(s, w1.i)
      w2 == Space(s, nm.i)
      ext == IsExternal(s, w2.i)
      x == ExternalAt(s, w2.i, FALSE)
      w3 == SkipWS(s, x.i)
      nd == ext /\ MatchAt(s, w3, B("NDATA"))
      w4 == Space(s, w3 + 5)
      ndn == NameAt(s, w4.i)
      lit == QuotedAt(s, w2.i)
      j == IF nd THEN ndn.i ELSE IF ext THEN x.i ELSE lit.i
      ok == /\ w.ok /\ w1.ok /\ nm.ok /\ w2.ok
            /\ IF ext THEN x.ok ELSE lit.ok
            /\ nd => w3 > x.i /\ w4.ok /\ ndn.ok /\ ~pe
      jj == SkipWS(s, j)
  IN  IF ~ok \/ At(s, jj) # GT THEN Bad(st, "ENTITY")
      ELSE Go(st, jj + 1, [e |-> "en", n |-> nm.n, pe |-> pe,
                           s |-> IF ext THEN <<>> ELSE <<lit.s>>,
                           pub |-> IF ext THEN x.pub ELSE <<>>, sys |-> IF ext THEN x.sys ELSE <<>>,
                           nd |-> IF nd THEN <<ndn.n>> ELSE <<>>])

LOCAL NotationStep(s, st) ==
  LET w == Space(s, st.i + 10)
      nm == NameAt(s, w.i)
      w2 == Space(s, nm.i)
      x == ExternalAt(s, w2.i, TRUE)
      j == SkipWS(s, x.i)
  IN  IF ~w.ok \/ ~nm.ok \/ ~w2.ok \/ ~x.ok \/ At(s, j) # GT THEN Bad(st, "NOTATION")
      ELSE Go(st, j + 1, [e |-> "no", n |-> nm.n, pub |-> x.pub, sys |-> x.sys])

LOCAL DeclStep(s, st) ==
  IF st.stk # <<>> THEN Bad(st, "declaration in content")
  ELSE IF MatchAt(s, st.i, B("<!ELEMENT")) THEN ElementStep(s, st)
  ELSE IF MatchAt(s, st.i, B("<!ATTLIST")) THEN AttlistStep(s, st)
  ELSE IF MatchAt(s, st.i, B("<!ENTITY")) THEN EntityStep(s, st)
  ELSE IF MatchAt(s, st.i, B("<!NOTATION")) THEN NotationStep(s, st)
  ELSE Bad(st, "markup")

LOCAL SubsetStep(s, st) ==
  LET c == s[st.i] IN
  IF IsWS(c) THEN [st EXCEPT !.i = SkipWS(s, @)]
  ELSE IF c = 93
  THEN LET w == SkipWS(s, st.i + 1)
       IN  IF At(s, w) = GT THEN [Go(st, w + 1, [e |-> "de", v |-> TRUE]) EXCEPT !.dtd = FALSE]
           ELSE Bad(st, "doctype end")
  ELSE IF MatchAt(s, st.i, B("<!--")) THEN CommentStep(s, st)
  ELSE IF MatchAt(s, st.i, B("<?")) THEN PIStep(s, st)
  ELSE DeclStep(s, st)

LOCAL Step(s, st) ==
  IF st.tag # <<>> THEN TagStep(s, st)
  ELSE IF st.dtd THEN SubsetStep(s, st)
  ELSE LET c == s[st.i]
           d == At(s, st.i + 1)
       IN  IF c # LT THEN TextStep(s, st)
           ELSE IF d = 33
                THEN IF MatchAt(s, st.i, B("<!--")) THEN CommentStep(s, st)
                     ELSE IF MatchAt(s, st.i, B("<![CDATA[")) THEN CDataStep(s, st)
                     ELSE IF MatchAt(s, st.i, B("<!DOCTYPE")) THEN DoctypeStep(s, st)
                     ELSE DeclStep(s, st)
           ELSE IF d = 63
                THEN IF st.i = 1 /\ MatchAt(s, 1, B("<?xml")) /\ (IsWS(At(s, 6)) \/ At(s, 6) = 63)
                     THEN XmlDeclStep(s, st) ELSE PIStep(s, st)
           ELSE IF d = 47 THEN EndTagStep(s, st)
           ELSE StartTagStep(s, st)

Parse(s) ==
  LET st0 == [i |-> 1, evs |-> <<>>, stk |-> <<>>, dtd |-> FALSE, tag |-> <<>>, ok |-> TRUE, why |-> ""]
      st == FoldLeft(LAMBDA a, k : IF ~a.ok \/ a.i > Len(s) THEN a ELSE Step(s, a),
                     st0, [k \in 1..Len(s) |-> k])
  IN  IF ~st.ok THEN [ok |-> FALSE, why |-> st.why, at |-> st.i, evs |-> st.evs]
      ELSE IF st.stk # <<>> \/ st.dtd \/ st.tag # <<>> THEN [ok |-> FALSE, why |-> "unclosed", at |-> st.i, evs |-> st.evs]
      ELSE [ok |-> TRUE, why |-> "", at |-> st.i, evs |-> st.evs]

WellFormed(s) == Parse(s).ok
=============================================================================
