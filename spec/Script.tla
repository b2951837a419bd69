------------------------------- MODULE Script -------------------------------
(***************************************************************************)
(* What a gotester script means: the calls it stands for.                  *)
(*                                                                         *)
(* A command is [a, k, name, ws, content, ps]: action, kind and white      *)
(* space mode are TLA+ strings; name and content are sequences of code     *)
(* points; ps is a sequence of [p |-> name, v |-> value], without repeats. *)
(* A meaning is [ok, enc, ops]: whether the script is one, the encoding to *)
(* write in, and the calls (as in XmlWriter) up to the first command that  *)
(* means nothing.                                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, Chars

Debugging == {"line", "pos", "fn"}

(* -- white space ---------------------------------------------------------- *)

Strip(s) ==
  LET at   == [i \in 1..Len(s) |-> i]
      word == SelectSeq(at, LAMBDA i : ~IsWS(s[i]))
      (* what is in a word, and the first of the white space between two *)
      kept == SelectSeq(at, LAMBDA i : i >= word[1] /\ i <= word[Len(word)] /\ (IsWS(s[i]) => ~IsWS(s[i - 1])))
  IN  IF word = <<>> THEN <<>> ELSE [j \in 1..Len(kept) |-> IF IsWS(s[kept[j]]) THEN 32 ELSE s[kept[j]]]

Clean(c) == IF c.ws = "strip" THEN Strip(c.content) ELSE c.content

(* -- parameters ------------------------------------------------------------ *)
Lower(s) == [i \in 1..Len(s) |-> IF s[i] >= 65 /\ s[i] <= 90 THEN s[i] + 32 ELSE s[i]]
True(v)  == Lower(v) \in {B("yes"), B("true")}
False(v) == Lower(v) \in {B("no"), B("false")}
IsBool(v) == True(v) \/ False(v)

Names(c) == {c.ps[i].p : i \in 1..Len(c.ps)}
Given(c, p) == p \in Names(c)
Get(c, p) == IF Given(c, p) THEN c.ps[CHOOSE i \in 1..Len(c.ps) : c.ps[i].p = p].v ELSE <<>>
Yes(c, p, default) == IF Given(c, p) THEN True(Get(c, p)) ELSE default

(* what each command may be given, and which of it is boolean *)
Params(a, k) ==
  CASE a = "write" /\ k = "attr"       -> {"prefix", "uri"}
    [] a = "write" /\ k = "dtd-attr"   -> {"decl", "type", "required"}
    [] a = "write" /\ k = "dtd-entity" -> {"is-pe", "ndata-id", "system-id", "public-id"}
    [] a = "write" /\ k = "notation"   -> {"system-id", "public-id"}
    [] a = "write" /\ k = "pi"         -> {"target"}
    [] a = "write" /\ k = "raw"        -> {"next"}
    [] a = "start" /\ k = "doc"        -> {"version", "encoding", "standalone"}
    [] a = "start" /\ k = "dtd"        -> {"system-id", "public-id"}
    [] a = "start" /\ k = "elem"       -> {"prefix", "uri"}
    [] a = "end"   /\ k = "elem"       -> {"full"}
    [] OTHER -> {}
Booleans == {"required", "is-pe", "next", "standalone", "full"}

Kinds(a) ==
  CASE a = "write" -> {"attr", "cdata", "cdata-content", "comment", "dtd-attr", "dtd-elem", "dtd-entity", "notation", "pi", "raw", "text"}
    [] a = "start" -> {"cdata", "comment", "doc", "dtd", "dtd-att-list", "elem"}
    [] a = "end"   -> {"all", "cdata", "comment", "doc", "dtd", "dtd-att-list", "elem"}
    [] OTHER -> {}

Known(c) ==
  /\ c.k \in Kinds(c.a)
  /\ Names(c) \subseteq Params(c.a, c.k)
  /\ \A p \in Names(c) \cap Booleans : IsBool(Get(c, p))

(* -- commands --------------------------------------------------------------- *)
W(n) == [o |-> "write", ns |-> <<n>>]
S(n) == [o |-> "start", ns |-> <<n>>]
End(k) == [o |-> "end", k |-> k, d |-> 0, names |-> <<>>]
Str(k, s) == [k |-> k, s |-> s]

(* DTDAttrDefault, Required, Implied, Fixed *)
Default(c) ==
  IF Given(c, "decl") THEN (IF Yes(c, "required", FALSE) THEN 4 ELSE 1)
  ELSE IF Yes(c, "required", FALSE) THEN 2 ELSE 3

Calls(c) ==
  CASE c.a = "write" /\ c.k = "attr" ->
         <<[o |-> "attrs", ns |-> <<[k |-> "attr", p |-> Get(c, "prefix"), u |-> Get(c, "uri"), n |-> c.name, v |-> Clean(c)]>>]>>
    [] c.a = "write" /\ c.k = "cdata"         -> <<W(Str("cdata", Clean(c)))>>
    [] c.a = "write" /\ c.k = "cdata-content" -> <<W(Str("cdcontent", Clean(c)))>>
    [] c.a = "write" /\ c.k = "comment"       -> <<W(Str("comment", Clean(c)))>>
    [] c.a = "write" /\ c.k = "dtd-attr" ->
         <<W([k |-> "dtdattr", n |-> c.name, ty |-> Get(c, "type"), df |-> Default(c), s |-> Get(c, "decl")])>>
    [] c.a = "write" /\ c.k = "dtd-elem"      -> <<W([k |-> "dtdelem", n |-> c.name, s |-> Clean(c)])>>
    [] c.a = "write" /\ c.k = "dtd-entity" ->
         <<W([k |-> "dtdent", n |-> c.name, s |-> Clean(c), f |-> Yes(c, "is-pe", FALSE),
              pub |-> Get(c, "public-id"), sys |-> Get(c, "system-id"), nd |-> Get(c, "ndata-id")])>>
    [] c.a = "write" /\ c.k = "notation" ->
         <<W([k |-> "notation", n |-> c.name, pub |-> Get(c, "public-id"), sys |-> Get(c, "system-id")])>>
    [] c.a = "write" /\ c.k = "pi"            -> <<W([k |-> "pi", n |-> Get(c, "target"), s |-> Clean(c)])>>
    [] c.a = "write" /\ c.k = "raw" ->
         (IF Yes(c, "next", TRUE) THEN <<[o |-> "next"]>> ELSE <<>>) \o <<W(Str("raw", Clean(c)))>>
    [] c.a = "write" /\ c.k = "text"          -> <<W(Str("text", Clean(c)))>>
    [] c.a = "start" /\ c.k \in {"cdata", "comment"} -> <<S(Str(c.k, <<>>))>>
    [] c.a = "start" /\ c.k = "doc" ->
         <<S([k |-> "doc", sv |-> FALSE, se |-> ~Given(c, "encoding"),
              fv |-> IF Given(c, "version") THEN <<Get(c, "version")>> ELSE <<>>,
              fe |-> IF Given(c, "encoding") THEN <<Get(c, "encoding")>> ELSE <<>>,
              sa |-> IF Given(c, "standalone") THEN (IF True(Get(c, "standalone")) THEN 1 ELSE 0) ELSE -1])>>
    [] c.a = "start" /\ c.k = "dtd"           -> <<S([k |-> "dtd", n |-> c.name, pub |-> Get(c, "public-id"), sys |-> Get(c, "system-id")])>>
    [] c.a = "start" /\ c.k = "dtd-att-list"  -> <<S([k |-> "attlist", n |-> c.name, at |-> <<>>])>>
    [] c.a = "start" /\ c.k = "elem" ->
         <<S([k |-> "elem", p |-> Get(c, "prefix"), u |-> Get(c, "uri"), n |-> c.name, at |-> <<>>, c |-> <<>>, f |-> FALSE])>>
    [] c.a = "end" /\ c.k = "all"             -> <<[o |-> "endall"]>>
    [] c.a = "end" /\ c.k = "doc"             -> <<[o |-> "enddoc"]>>
    [] c.a = "end" /\ c.k = "dtd-att-list"    -> <<End("attlist")>>
    [] c.a = "end" /\ c.k = "elem"            -> IF Yes(c, "full", FALSE) THEN <<[o |-> "endfull", names |-> <<>>]>> ELSE <<End("elem")>>
    [] c.a = "end"                            -> <<End(c.k)>>

(* the encodings there are, by the names they are asked for with *)
EncodingOf(v) ==
  LET l == Lower(v)
  IN  CASE l = B("utf-8") -> "utf-8" [] l = B("iso-8859-1") -> "iso-8859-1" [] l = B("windows-1252") -> "windows-1252" [] OTHER -> "none"

(* -- scripts ------------------------------------------------------------------ *)
Bare(c) == [c EXCEPT !.ps = SelectSeq(c.ps, LAMBDA x : x.p \notin Debugging)]

(* the writer is opened by the first command, which must not end something; *)
(* an encoding that is asked for later is only written down                 *)
Meaning(cmds) ==
  FoldLeft(LAMBDA r, c0 :
             LET c == Bare(c0)
                 enc == IF r.enc # "" THEN r.enc
                        ELSE IF c.a = "start" /\ c.k = "doc" /\ Given(c, "encoding") THEN EncodingOf(Get(c, "encoding")) ELSE "utf-8"
             IN  IF ~r.ok THEN r
                 ELSE IF ~Known(c) \/ enc = "none" \/ (r.enc = "" /\ c.a = "end") THEN [r EXCEPT !.ok = FALSE]
                 ELSE [ok |-> TRUE, enc |-> enc, ops |-> r.ops \o Calls(c)],
           [ok |-> TRUE, enc |-> "", ops |-> <<>>], cmds)
=============================================================================
