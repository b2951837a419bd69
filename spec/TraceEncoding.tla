--------------------------- MODULE TraceEncoding ---------------------------
(***************************************************************************)
(* C17: histories on a UTF-8 writer (ref; the document names the encoding) *)
(* and on writers opened for an encoding, with various buffers and flushes.*)
(* outs are the different byte sequences those writers produced.           *)
(*                                                                         *)
(* kf marks histories that put characters the encoding lacks where a       *)
(* reference is not recognised (known finding: written as references all   *)
(* the same).                                                              *)
(***************************************************************************)
EXTENDS Encodings, Json, IOUtils

Lines == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tr
T == Lines[tr]

Say(kind, rest) == PrintT("@MISMATCH " \o ToJson([id |-> T.id, kind |-> kind] @@ rest))

OutOk(o) ==
  LET d == DecodeBytes(T.enc, o.b)
      p == Differs(T.enc, T.ref, d)
      from == IF p > 20 THEN p - 20 ELSE 1
  IN  IF o.pan THEN Say("panic", [buf |-> o.buf])
      ELSE IF o.errs # T.errs THEN Say("errors", [buf |-> o.buf, got |-> o.errs, want |-> T.errs])
      ELSE IF p # 0 THEN Say("bytes", [buf |-> o.buf, at |-> p, want |-> SubSeq(T.ref, from, IF p + 20 > Len(T.ref) THEN Len(T.ref) ELSE p + 20),
                                       got |-> SubSeq(d, from, IF p + 30 > Len(d) THEN Len(d) ELSE p + 30)])
      ELSE IF T.kf THEN PrintT("@KNOWN ncr-outside-content")
      ELSE TRUE

Judge == \A i \in 1..Len(T.outs) : OutOk(T.outs[i])

EncInit == tr \in 1..Len(Lines)
EncNext == tr > 0 /\ Judge /\ PrintT("@DONE " \o ToString(T.id) \o " " \o ToString(Len(T.ref))) /\ tr' = -tr
TraceSpec == EncInit /\ [][EncNext]_tr
=============================================================================
