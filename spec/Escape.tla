------------------------------- MODULE Escape -------------------------------
(***************************************************************************)
(* C03: what the written form of a string in character data or in an       *)
(* attribute value must satisfy, in terms of an XML reader: no markup      *)
(* characters, and decoding it gives the string back, cleaned of what XML  *)
(* cannot carry.  Nothing is said about which references are used.         *)
(***************************************************************************)
EXTENDS XmlGrammar, XmlTree

Safe(raw, text) ==
  \A i \in 1..Len(raw) : IsXmlChar(raw[i]) /\ raw[i] # LT /\ raw[i] # GT /\ (text \/ raw[i] # DQ)

Survives(raw, s, text) ==
  /\ Safe(raw, text)
  /\ LET d == Decode(EOL(raw), ~text) IN d.ok /\ d.s = Clean(s)

(* the code points that may come out as they are *)
Plain(text) ==
  IF text THEN <<<<9, 10>>, <<32, 37>>, <<39, 59>>, <<61, 61>>, <<63, 55295>>, <<57344, 65533>>, <<65536, 1114111>>>>
  ELSE <<<<32, 33>>, <<35, 37>>, <<39, 59>>, <<61, 61>>, <<63, 55295>>, <<57344, 65533>>, <<65536, 1114111>>>>

Within(a, b, iv) == \E i \in 1..Len(iv) : a >= iv[i][1] /\ b <= iv[i][2]
=============================================================================
