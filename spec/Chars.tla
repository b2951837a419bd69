------------------------------- MODULE Chars -------------------------------
(***************************************************************************)
(* Strings are sequences of integers: a code point (>= 0) per character,   *)
(* and the negated byte for each byte that is not part of valid UTF-8.     *)
(* The drivers do the conversion with Go's utf8 decoder.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC

LOCAL Printable ==
  " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"

Ord == [c \in {SubSeq(Printable, i, i) : i \in 1..95} |->
          31 + CHOOSE i \in 1..95 : SubSeq(Printable, i, i) = c]

(* "abc" -> <<97, 98, 99>> (printable ASCII only) *)
LOCAL Points(str) == [i \in 1..Len(str) |-> Ord[SubSeq(str, i, i)]]

(* the literals the specification uses, converted once *)
LOCAL Literals == {
  " NDATA ", " [", "#FIXED ", "#FIXED", "#IMPLIED", "#REQUIRED", "% ",
  "&#34;", "&#39;", "&#x9;", "&#xA;", "&#xD;", "&amp;", "&gt;", "&lt;", ")",
  "--", "-->", "/>", "1.0", "<!--", "<!ATTLIST ", "<!ATTLIST", "<!DOCTYPE ",
  "<!DOCTYPE", "<!ELEMENT ", "<!ELEMENT", "<!ENTITY ", "<!ENTITY",
  "<!NOTATION ", "<!NOTATION", "<![CDATA[", "</", "<?", "<?xml", "=\"",
  "?>", "NDATA", "NOTATION", "PUBLIC \"", "PUBLIC", "SYSTEM ", "SYSTEM",
  "UTF-8", "]>", "]]>", "amp", "apos", "encoding", "gt", "lt", "no", "quot",
  "standalone", "version", "xml", "xmlns", "xmlns:", "yes"}

LOCAL PointsOf == [str \in Literals |-> Points(str)]

B(str) == IF str \in Literals THEN PointsOf[str] ELSE Points(str)

TAB == 9   NLC == 10   CR == 13   SP == 32
DQ == 34   SQ == 39    AMP == 38  LT == 60   GT == 62
FFFD == 65533

MaxCP == 1114111

(* https://www.w3.org/TR/xml/#NT-Char *)
IsXmlChar(c) ==
  \/ c >= 32 /\ c <= 55295
  \/ c = 9 \/ c = 10 \/ c = 13
  \/ c >= 57344 /\ c <= 65533
  \/ c >= 65536 /\ c <= MaxCP

(* the note at the end of https://www.w3.org/TR/xml/#charsets *)
IsDiscouraged(c) ==
  \/ c >= 127 /\ c <= 132
  \/ c >= 134 /\ c <= 159
  \/ c >= 64976 /\ c <= 65007
  \/ c >= 131070 /\ (c % 65536) \in {65534, 65535}

CharsOk(s, strict) ==
  \A i \in 1..Len(s) :
     /\ IsXmlChar(s[i])
     /\ ~(strict /\ IsDiscouraged(s[i]))

(* https://www.w3.org/TR/xml/#NT-NameStartChar *)
IsNameStart(c) ==
  \/ c >= 97 /\ c <= 122
  \/ c >= 65 /\ c <= 90
  \/ c = 58 \/ c = 95
  \/ c >= 192 /\ c <= 214
  \/ c >= 216 /\ c <= 246
  \/ c >= 248 /\ c <= 767
  \/ c >= 880 /\ c <= 893
  \/ c >= 895 /\ c <= 8191
  \/ c >= 8204 /\ c <= 8205
  \/ c >= 8304 /\ c <= 8591
  \/ c >= 11264 /\ c <= 12271
  \/ c >= 12289 /\ c <= 55295
  \/ c >= 63744 /\ c <= 64975
  \/ c >= 65008 /\ c <= 65533
  \/ c >= 65536 /\ c <= 983039

(* https://www.w3.org/TR/xml/#NT-NameChar *)
IsNameChar(c) ==
  \/ IsNameStart(c)
  \/ c = 45 \/ c = 46
  \/ c >= 48 /\ c <= 57
  \/ c = 183
  \/ c >= 768 /\ c <= 879
  \/ c >= 8255 /\ c <= 8256

IsName(s) ==
  /\ s # <<>>
  /\ IsNameStart(s[1])
  /\ \A i \in 2..Len(s) : IsNameChar(s[i])

(* What the exported name check accepts: the production, or nothing at all *)
NameOk(s) == s = <<>> \/ IsName(s)

IsAlpha(c) == (c >= 65 /\ c <= 90) \/ (c >= 97 /\ c <= 122)
IsDigit(c) == c >= 48 /\ c <= 57

(* https://www.w3.org/TR/xml/#NT-EncName *)
IsEncChar(c) == IsAlpha(c) \/ IsDigit(c) \/ c = 45 \/ c = 46 \/ c = 95
EncOk(s) == s = <<>> \/ (IsAlpha(s[1]) /\ \A i \in 2..Len(s) : IsEncChar(s[i]))

(* https://www.w3.org/TR/xml/#NT-PubidChar *)
IsPubidChar(c) ==
  \/ IsAlpha(c) \/ IsDigit(c)
  \/ c \in {32, 13, 10, 45, 39, 40, 41, 43, 44, 46, 47, 58, 61, 63, 59, 33, 42, 35, 64, 36, 95, 37}
PubidOk(s) == \A i \in 1..Len(s) : IsPubidChar(s[i])

IsWS(c) == c = 32 \/ c = 9 \/ c = 10 \/ c = 13

------------------------------------------------------------------------------
(* searching *)

Has(s, c) == \E i \in 1..Len(s) : s[i] = c

MatchAt(s, i, pat) ==
  /\ i + Len(pat) - 1 <= Len(s)
  /\ \A k \in 1..Len(pat) : s[i + k - 1] = pat[k]

HasSub(s, pat) == \E i \in 1..(Len(s) - Len(pat) + 1) : MatchAt(s, i, pat)

(* concatenation of a sequence of sequences, without recursion *)
Flat(ss) == FoldLeft(LAMBDA a, b : a \o b, <<>>, ss)

Last2(s) == IF Len(s) <= 2 THEN s ELSE SubSeq(s, Len(s) - 1, Len(s))

LowerAscii(s) == [i \in 1..Len(s) |-> IF s[i] >= 65 /\ s[i] <= 90 THEN s[i] + 32 ELSE s[i]]

(* decimal digits of a natural number, as characters *)
RECURSIVE DecDigits(_)
DecDigits(n) == IF n < 10 THEN <<48 + n>> ELSE Append(DecDigits(n \div 10), 48 + (n % 10))

Rep(s, k) == FoldLeft(LAMBDA a, i : a \o s, <<>>, [i \in 1..k |-> i])
=============================================================================
