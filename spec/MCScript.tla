------------------------------ MODULE MCScript ------------------------------
(***************************************************************************)
(* Every command, with every set of parameters over a few values, in every *)
(* setting a script can have reached; and every short script over a small  *)
(* vocabulary.  All are printed and run by gotester.                       *)
(***************************************************************************)
EXTENDS Script, TLC, Json
CONSTANTS MaxLen
VARIABLES script, mode

P(p, v) == [p |-> p, v |-> v]
C(a, k, name, ws, content, ps) == [a |-> a, k |-> k, name |-> name, ws |-> ws, content |-> content, ps |-> ps]
Cmd(a, k) == C(a, k, B("n"), "", <<>>, <<>>)

Text1 == B("  a  b ") \o <<10, 9, 99, 13, 160, 32>>
Values(p) ==
  CASE p \in Booleans -> {B("true"), B("Yes"), B("no"), B("FALSE"), B("1"), B("maybe"), <<>>}
    [] p = "encoding" -> {B("UTF-8"), B("utf-8"), B("ISO-8859-1"), B("windows-1252"), B("latin9")}
    [] p = "type" -> {B("CDATA"), B("(a|b)")}
    [] p = "version" -> {B("1.0"), B("1.1")}
    [] OTHER -> {B("v"), <<>>}

(* parameters: every subset, one of them with each of its values, in an      *)
(* order and its reverse                                                     *)
Usual(p) == CASE p \in Booleans -> B("true") [] p = "encoding" -> B("UTF-8") [] p = "type" -> B("CDATA") [] p = "version" -> B("1.0") [] OTHER -> B("v")
Choice(s, p, v) == LET q == SetToSeq(s) IN [i \in 1..Len(q) |-> P(q[i], IF q[i] = p THEN v ELSE Usual(q[i]))]
Sets(a, k) ==
  LET some == {<<>>} \cup UNION {UNION {{Choice(s, p, v) : v \in Values(p)} : p \in s} : s \in SUBSET Params(a, k)}
  IN  some \cup {Reverse(x) : x \in some}

Kindly(a) == Kinds(a) \cup {"doc", "all", "text", "elem", "dtd-elem", "nonsense", ""}
Contents == {<<>>, Text1, B("x"), B("--"), B("]]>"), B("?>"), B(" "), B("\"'"), B("<&>"), <<233, 8364, 128512>>}

Commands ==
  {[Cmd(a, k) EXCEPT !.ps = ps] : <<a, k, ps>> \in UNION {{<<a, k, ps>> : ps \in Sets(a, k)} : <<a, k>> \in UNION {{a} \X Kindly(a) : a \in {"write", "start", "end"}}}}
  \cup {[Cmd(a, k) EXCEPT !.ps = <<P(p, B("v"))>>] : <<a, k, p>> \in UNION {{a} \X Kinds(a) \X {"line", "uri", "full", "next", "Line", "nonsense"} : a \in {"write", "start", "end"}}}
  \cup {C("write", k, B("n"), ws, x, IF k = "pi" THEN <<P("target", B("t"))>> ELSE <<>>) : k \in Kinds("write"), ws \in {"", "strip", "keep", "STRIP"}, x \in Contents}
  \cup {C(a, k, nm, "", <<>>, <<>>) : <<a, k, nm>> \in UNION {{a} \X Kinds(a) \X {<<>>, B("a b"), B("p:q")} : a \in {"write", "start", "end"}}}
  \cup {C(a, "elem", B("n"), "", <<>>, <<>>) : a \in {"", "stop", "Start", "write "}}

Doc == Cmd("start", "doc")
Elem == Cmd("start", "elem")
Dtd == Cmd("start", "dtd")
Settings == {<<>>, <<Doc>>, <<Elem>>, <<Doc, Elem>>, <<Doc, Elem, Cmd("write", "attr")>>, <<Doc, Dtd>>, <<Doc, Dtd, Cmd("start", "dtd-att-list")>>,
             <<Elem, Cmd("start", "cdata")>>, <<Elem, Cmd("start", "comment")>>, <<Elem, Elem, C("write", "text", <<>>, "", B("t"), <<>>)>>,
             <<[Doc EXCEPT !.ps = <<P("encoding", B("iso-8859-1"))>>]>>, <<Doc, Elem, Cmd("end", "elem")>>}
Rest == <<Cmd("end", "all")>>

Vocabulary == {Doc, Elem, Dtd, Cmd("start", "comment"), Cmd("start", "dtd-att-list"), Cmd("end", "elem"), Cmd("end", "all"), Cmd("end", "doc"), Cmd("end", "dtd"),
               Cmd("end", "comment"), Cmd("end", "dtd-att-list"),
               Cmd("write", "attr"), C("write", "text", <<>>, "strip", Text1, <<>>), C("write", "comment", <<>>, "", B(" x "), <<>>),
               C("write", "raw", <<>>, "", B("<r/>"), <<P("next", B("no"))>>), C("write", "raw", <<>>, "", B("<r/>"), <<>>),
               [Cmd("end", "elem") EXCEPT !.ps = <<P("full", B("true"))>>], Cmd("write", "dtd-attr")}

Debug == <<P("line", B("1")), P("pos", B("x")), P("fn", <<>>)>>
Debugged(s) == [i \in 1..Len(s) |-> [s[i] EXCEPT !.ps = <<Debug[1 + (i % 3)]>> \o @ \o <<Debug[1 + ((i + 1) % 3)]>>]]

InitX == \/ mode = "single" /\ script \in Settings
         \/ mode = "short" /\ script = <<>>
NextX == \/ mode = "single" /\ mode' = "done" /\ \E c \in Commands : script' = script \o <<c>> \o Rest
         \/ mode = "short" /\ Len(script) < MaxLen /\ mode' = mode /\ \E c \in Vocabulary : script' = Append(script, c)

(* -- what must be so of every meaning ------------------------------------- *)
Sound ==
  LET m == Meaning(script)
  IN  /\ Meaning(Debugged(script)) = m
      /\ Meaning([i \in 1..Len(script) |-> [script[i] EXCEPT !.ps = Reverse(@)]]) = m
      /\ \A n \in 0..(Len(script) - 1) :
            LET q == Meaning(SubSeq(script, 1, n)) IN /\ m.ok => q.ok
                                                     /\ SubSeq(m.ops, 1, Len(q.ops)) = q.ops
      /\ m.ok => m.enc \in {"", "utf-8", "iso-8859-1", "windows-1252"}

Stripped ==
  \A x \in {script[i].content : i \in 1..Len(script)} :
     LET y == Strip(x)
     IN  /\ Strip(y) = y
         /\ SelectSeq(y, LAMBDA c : ~IsWS(c)) = SelectSeq(x, LAMBDA c : ~IsWS(c))
         /\ \A i \in 1..Len(y) : IsWS(y[i]) => /\ y[i] = 32 /\ i > 1 /\ i < Len(y)
                                               /\ ~IsWS(y[i + 1])

Shown == (mode = "done" \/ (mode = "short" /\ Len(script) = MaxLen)) =>
           /\ PrintT("@C " \o ToJson(script))
           /\ mode = "done" => PrintT("@C " \o ToJson(Debugged(script)))
=============================================================================
