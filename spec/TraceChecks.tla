---------------------------- MODULE TraceChecks ----------------------------
(***************************************************************************)
(* C19: the exported check functions against the productions in Chars.     *)
(*                                                                         *)
(*   sweep   which code points c the check accepted in pre \o <<c>> \o post,*)
(*           as maximal intervals, all of 0..top but surrogates tried; acc *)
(*           were accepted with a byte that is not UTF-8 in place of c     *)
(*   bad     strings around bytes that are not UTF-8: acc were accepted    *)
(*   one     a single string                                               *)
(*                                                                         *)
(* The same sets are written twice: as predicates in Chars, transcribed    *)
(* from the recommendation, and as sorted maximal intervals here.  MCChecks*)
(* shows that they agree on every code point.                              *)
(***************************************************************************)
EXTENDS Chars, Json, IOUtils

Char       == <<<<9, 10>>, <<13, 13>>, <<32, 55295>>, <<57344, 65533>>, <<65536, 1114111>>>>
StrictChar ==
  <<<<9, 10>>, <<13, 13>>, <<32, 126>>, <<133, 133>>, <<160, 55295>>, <<57344, 64975>>, <<65008, 65533>>, <<65536, 131069>>>>
  \o [i \in 1..15 |-> <<(i + 1) * 65536, (i + 1) * 65536 + 65533>>]
Start      ==
  <<<<58, 58>>, <<65, 90>>, <<95, 95>>, <<97, 122>>, <<192, 214>>, <<216, 246>>, <<248, 767>>, <<880, 893>>, <<895, 8191>>,
    <<8204, 8205>>, <<8304, 8591>>, <<11264, 12271>>, <<12289, 55295>>, <<63744, 64975>>, <<65008, 65533>>, <<65536, 983039>>>>
Rest       ==
  <<<<45, 46>>, <<48, 58>>, <<65, 90>>, <<95, 95>>, <<97, 122>>, <<183, 183>>, <<192, 214>>, <<216, 246>>, <<248, 893>>, <<895, 8191>>,
    <<8204, 8205>>, <<8255, 8256>>, <<8304, 8591>>, <<11264, 12271>>, <<12289, 55295>>, <<63744, 64975>>, <<65008, 65533>>, <<65536, 983039>>>>
EncStart   == <<<<65, 90>>, <<97, 122>>>>
EncRest    == <<<<45, 46>>, <<48, 57>>, <<65, 90>>, <<95, 95>>, <<97, 122>>>>
Pubid      ==
  <<<<10, 10>>, <<13, 13>>, <<32, 33>>, <<35, 37>>, <<39, 59>>, <<61, 61>>, <<63, 90>>, <<95, 95>>, <<97, 122>>>>

In(iv, c) == \E i \in 1..Len(iv) : c >= iv[i][1] /\ c <= iv[i][2]
Sorted(iv) == \A i \in 1..(Len(iv) - 1) : iv[i][2] + 1 < iv[i + 1][1]

Accepts(f, s) ==
  CASE f = "name" -> NameOk(s)
    [] f = "chars" -> CharsOk(s, FALSE)
    [] f = "strict" -> CharsOk(s, TRUE)
    [] f = "enc" -> EncOk(s)
    [] f = "pubid" -> PubidOk(s)

First(f) ==
  CASE f = "name" -> Start [] f = "chars" -> Char [] f = "strict" -> StrictChar
    [] f = "enc" -> EncStart [] f = "pubid" -> Pubid
Later(f) ==
  CASE f = "name" -> Rest [] f = "enc" -> EncRest [] OTHER -> First(f)

(* one character of each kind that is always right, to judge the rest *)
Neutral == 97
Expected(f, pre, post) ==
  IF ~Accepts(f, pre \o <<Neutral>> \o post) THEN <<>>
  ELSE IF pre = <<>> THEN First(f) ELSE Later(f)

UpTo(iv, top) ==
  LET keep == SelectSeq(iv, LAMBDA r : r[1] <= top) IN
  [i \in 1..Len(keep) |-> <<keep[i][1], IF keep[i][2] > top THEN top ELSE keep[i][2]>>]

Lines == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tr
T == Lines[tr]

(* Known finding: CheckName refuses every name character beyond U+FFFF; the
   existing tests ask for that. *)
BmpOnly(iv) == SelectSeq(iv, LAMBDA r : r[1] < 65536)
Astral(s) == \E i \in 1..Len(s) : s[i] >= 65536
KnownAstral(f, iv, want) ==
  f = "name" /\ iv = (IF Astral(T.pre \o T.post) THEN <<>> ELSE BmpOnly(want))

Say(kind, want) == PrintT("@MISMATCH " \o ToJson([id |-> T.id, kind |-> kind, want |-> want]))

Judge ==
  IF T.pan THEN Say("panic", <<>>)
  ELSE CASE T.mode = "sweep" ->
              LET want == UpTo(Expected(T.f, T.pre, T.post), T.top) IN
              IF T.acc # <<>> THEN Say("bad", <<>>)
              ELSE IF T.iv = want THEN TRUE
              ELSE IF KnownAstral(T.f, T.iv, want) THEN PrintT("@KNOWN name-astral")
              ELSE Say("sweep", want)
         [] T.mode = "bad" ->
              IF T.acc = <<>> THEN TRUE ELSE Say("bad", <<>>)
         [] T.mode = "one" ->
              LET want == Accepts(T.f, T.s) IN
              IF T.ok = want THEN TRUE
              ELSE IF want /\ T.f = "name" /\ Astral(T.s) THEN PrintT("@KNOWN name-astral")
              ELSE Say("one", <<>>)

CheckInit == tr \in 1..Len(Lines)
CheckNext == tr > 0 /\ Judge /\ PrintT("@DONE " \o ToString(T.id) \o " 1") /\ tr' = -tr
TraceSpec == CheckInit /\ [][CheckNext]_tr
=============================================================================
