---------------------------- MODULE TraceEscape ----------------------------
(***************************************************************************)
(* C03: strings the real writer wrote, each in its place in a document.    *)
(*                                                                         *)
(*   sweep   every code point c in pre \o <<c>> \o post: same are the c    *)
(*           that came out unchanged (pre and post included), ex the rest  *)
(*   some    strings in parts (the parts written one after the other)      *)
(***************************************************************************)
EXTENDS Escape, Json, IOUtils

Lines == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tr
T == Lines[tr]

Say(kind, rest) == PrintT("@MISMATCH " \o ToJson([id |-> T.id, kind |-> kind] @@ rest))

Inner(out) == SubSeq(out, Len(T.b) + 1, Len(out) - Len(T.a))

Right(x) ==
  /\ ~x.e
  /\ Len(x.o) >= Len(T.b) + Len(T.a)
  /\ MatchAt(x.o, 1, T.b)
  /\ T.a # <<>> => MatchAt(x.o, Len(x.o) - Len(T.a) + 1, T.a)
  /\ LET s == Flat([i \in 1..Len(x.p) |-> Clean(x.p[i])])
     IN  Survives(Inner(x.o), s, T.text)

(* the surroundings themselves must be free to stay as they are *)
SurroundingsOk ==
  LET s == T.pre \o T.post IN \A i \in 1..Len(s) : Within(s[i], s[i], Plain(T.text))

Judge ==
  IF T.mode = "sweep" /\ ~SurroundingsOk THEN Say("driver", [x |-> T.pre])
  ELSE
  /\ T.mode = "sweep" =>
       \A i \in 1..Len(T.same) :
          IF Within(T.same[i][1], T.same[i][2], Plain(T.text)) THEN TRUE ELSE Say("unescaped", [iv |-> T.same[i]])
  /\ LET bad == {i \in 1..Len(T.ex) : ~Right(T.ex[i])}
     IN  IF bad = {} THEN TRUE ELSE Say("lost", [x |-> T.ex[Min(bad)]])

EscInit == tr \in 1..Len(Lines)
EscNext == tr > 0 /\ Judge /\ PrintT("@DONE " \o ToString(T.id) \o " " \o ToString(T.n)) /\ tr' = -tr
TraceSpec == EscInit /\ [][EscNext]_tr
=============================================================================
