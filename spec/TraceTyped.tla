----------------------------- MODULE TraceTyped -----------------------------
(* C21: attributes set from typed values by the real code.  A line holds an  *)
(* attribute and a chain of settings, each made on what the one before it    *)
(* gave or on the attribute itself.                                          *)
EXTENDS Decimal, Json, IOUtils

Lines == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tr, l
T == Lines[tr]

TextOk(t, b, s) ==
  CASE t = "bool" -> s = IF b = <<1>> THEN B("true") ELSE B("false")
    [] t \in {"int8", "int16", "int32", "int64", "int"} -> s = IntText(b)
    [] t \in {"uint8", "uint16", "uint32", "uint64", "uint"} -> s = UintText(b)
    [] t = "float32" -> FloatTextOk(Float32(b), s)
    [] t = "float64" -> FloatTextOk(Float64(b), s)

QName == (IF T.at.p = <<>> THEN <<>> ELSE T.at.p \o B(":")) \o T.at.n
Written(s) ==
  B("<e ") \o QName \o B("=\"") \o s \o B("\"")
  \o (IF T.at.u = <<>> THEN <<>>
      ELSE B(" xmlns") \o (IF T.at.p = <<>> THEN <<>> ELSE B(":") \o T.at.p) \o B("=\"") \o T.at.u \o B("\""))
  \o B("/>")

Wrong(v) ==
  IF v.pan THEN "panic"
  ELSE IF ~TextOk(v.t, v.b, v.r.v) THEN "text"
  ELSE IF [v.r EXCEPT !.v = <<>>] # [T.at EXCEPT !.v = <<>>] THEN "attribute"
  ELSE IF v.src # v.kept THEN "source"
  ELSE IF v.doc # Written(v.r.v) THEN "written"
  ELSE ""

TypedInit == tr \in 1..Len(Lines) /\ l = 1
Consume ==
  /\ l <= Len(T.vs)
  /\ Wrong(T.vs[l]) # "" => PrintT("@MISMATCH " \o ToJson([id |-> T.id, l |-> l, kind |-> Wrong(T.vs[l]), v |-> T.vs[l]]))
  /\ l' = l + 1 /\ UNCHANGED tr
Finish ==
  /\ tr > 0 /\ l > Len(T.vs)
  /\ PrintT("@DONE " \o ToString(T.id) \o " " \o ToString(l - 1))
  /\ tr' = -tr /\ UNCHANGED l

TypedNext == tr > 0 /\ (Consume \/ Finish)
TraceSpec == TypedInit /\ [][TypedNext]_<<tr, l>>
=============================================================================
