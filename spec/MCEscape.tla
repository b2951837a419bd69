------------------------------ MODULE MCEscape ------------------------------
(***************************************************************************)
(* The escaping rules of XmlWriter satisfy Escape for every string over an *)
(* alphabet of everything that matters, up to MaxLen; every such string is *)
(* printed, to be written by the real code.  Also: the intervals Plain     *)
(* agree with what XmlWriter leaves alone, for every code point.           *)
(***************************************************************************)
EXTENDS XmlWriter, Escape, Json

CONSTANTS MaxLen, Block
VARIABLES s, b

Alphabet == {9, 10, 13, 32, 34, 38, 39, 60, 62, 93, 59, 97, 1, 233, 65534, 128512, -128, -195}

InitE == \/ s = <<>> /\ b = -1
         \/ s = <<>> /\ b \in 0..15
NextE == \/ b = -1 /\ Len(s) < MaxLen /\ \E c \in Alphabet : s' = Append(s, c) /\ b' = b
         \/ b >= 0 /\ b + 16 <= MaxCP \div Block /\ b' = b + 16 /\ s' = s

Sound ==
  b = -1 =>
    /\ Survives(EscText(s), s, TRUE)
    /\ Survives(EscAttr(s), s, FALSE)
    /\ PrintT("@S " \o ToJson(s))

PlainAgrees ==
  \A c \in (b * Block)..(b * Block + Block - 1) :
     c > MaxCP \/ b < 0 \/
     /\ Within(c, c, Plain(TRUE)) = Survives(<<c>>, <<c>>, TRUE)
     /\ Within(c, c, Plain(FALSE)) = Survives(<<c>>, <<c>>, FALSE)
=============================================================================
