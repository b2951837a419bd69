----------------------------- MODULE Encodings -----------------------------
(***************************************************************************)
(* Decoding of the encodings a document can be written in: a sequence of   *)
(* bytes to a sequence of code points (-1 for what does not decode).  The  *)
(* double-byte sets hold only the characters the drivers use; everything   *)
(* else outside ASCII counts as missing from those encodings.              *)
(***************************************************************************)
EXTENDS Chars

(* the upper halves of the single-byte encodings *)
LOCAL Upper ==
  [n \in {"iso-8859-1", "windows-1252", "koi8-r", "iso-8859-15"} |->
   CASE n = "iso-8859-1" -> [i \in 1..128 |-> 127 + i]
     [] n = "windows-1252" ->
    <<8364, 129, 8218, 402, 8222, 8230, 8224, 8225, 710, 8240, 352, 8249, 338, 141, 381, 143, 144, 8216, 8217,
    8220, 8221, 8226, 8211, 8212, 732, 8482, 353, 8250, 339, 157, 382, 376, 160, 161, 162, 163, 164, 165, 166,
    167, 168, 169, 170, 171, 172, 173, 174, 175, 176, 177, 178, 179, 180, 181, 182, 183, 184, 185, 186, 187,
    188, 189, 190, 191, 192, 193, 194, 195, 196, 197, 198, 199, 200, 201, 202, 203, 204, 205, 206, 207, 208,
    209, 210, 211, 212, 213, 214, 215, 216, 217, 218, 219, 220, 221, 222, 223, 224, 225, 226, 227, 228, 229,
    230, 231, 232, 233, 234, 235, 236, 237, 238, 239, 240, 241, 242, 243, 244, 245, 246, 247, 248, 249, 250,
    251, 252, 253, 254, 255>>
     [] n = "iso-8859-15" ->
    <<-1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1,
    -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, 160, 161, 162, 163, 8364, 165, 352, 167, 353, 169,
    170, 171, 172, 173, 174, 175, 176, 177, 178, 179, 381, 181, 182, 183, 382, 185, 186, 187, 338, 339, 376,
    191, 192, 193, 194, 195, 196, 197, 198, 199, 200, 201, 202, 203, 204, 205, 206, 207, 208, 209, 210, 211,
    212, 213, 214, 215, 216, 217, 218, 219, 220, 221, 222, 223, 224, 225, 226, 227, 228, 229, 230, 231, 232,
    233, 234, 235, 236, 237, 238, 239, 240, 241, 242, 243, 244, 245, 246, 247, 248, 249, 250, 251, 252, 253,
    254, 255>>
     [] OTHER ->
    <<9472, 9474, 9484, 9488, 9492, 9496, 9500, 9508, 9516, 9524, 9532, 9600, 9604, 9608, 9612, 9616, 9617,
    9618, 9619, 8992, 9632, 8729, 8730, 8776, 8804, 8805, 160, 8993, 176, 178, 183, 247, 9552, 9553, 9554,
    1105, 9555, 9556, 9557, 9558, 9559, 9560, 9561, 9562, 9563, 9564, 9565, 9566, 9567, 9568, 9569, 1025,
    9570, 9571, 9572, 9573, 9574, 9575, 9576, 9577, 9578, 9579, 9580, 169, 1102, 1072, 1073, 1094, 1076, 1077,
    1092, 1075, 1093, 1080, 1081, 1082, 1083, 1084, 1085, 1086, 1087, 1103, 1088, 1089, 1090, 1091, 1078,
    1074, 1100, 1099, 1079, 1096, 1101, 1097, 1095, 1098, 1070, 1040, 1041, 1062, 1044, 1045, 1060, 1043,
    1061, 1048, 1049, 1050, 1051, 1052, 1053, 1054, 1055, 1071, 1056, 1057, 1058, 1059, 1046, 1042, 1068,
    1067, 1047, 1064, 1069, 1065, 1063, 1066>>]

LOCAL Double ==
  [n \in {"shift_jis", "euc-jp", "iso-2022-jp", "gbk", "big5"} |->
   CASE n = "shift_jis" ->
    <<<<26085, <<147,250>>>>, <<26412, <<150,123>>>>, <<35486, <<140,234>>>>, <<28450, <<138,191>>>>, <<23383,
    <<142,154>>>>, <<12486, <<131,101>>>>, <<12473, <<131,88>>>>, <<12488, <<131,103>>>>, <<12354,
    <<130,160>>>>, <<12450, <<131,65>>>>, <<12289, <<129,65>>>>, <<12290, <<129,66>>>>, <<12540, <<129,91>>>>,
    <<20124, <<136,159>>>>, <<29081, <<234,164>>>>, <<65393, <<177>>>>, <<65408, <<192>>>>>>
     [] n = "euc-jp" ->
    <<<<26085, <<198,252>>>>, <<26412, <<203,220>>>>, <<35486, <<184,236>>>>, <<28450, <<180,193>>>>, <<23383,
    <<187,250>>>>, <<12486, <<165,198>>>>, <<12473, <<165,185>>>>, <<12488, <<165,200>>>>, <<12354,
    <<164,162>>>>, <<12450, <<165,162>>>>, <<12289, <<161,162>>>>, <<12290, <<161,163>>>>, <<12540,
    <<161,188>>>>, <<20124, <<176,161>>>>, <<29081, <<244,166>>>>, <<65393, <<142,177>>>>, <<65408,
    <<142,192>>>>>>
     [] n = "iso-2022-jp" ->
    <<<<26085, <<70,124>>>>, <<26412, <<75,92>>>>, <<35486, <<56,108>>>>, <<28450, <<52,65>>>>, <<23383,
    <<59,122>>>>, <<12486, <<37,70>>>>, <<12473, <<37,57>>>>, <<12488, <<37,72>>>>, <<12354, <<36,34>>>>,
    <<12450, <<37,34>>>>, <<12289, <<33,34>>>>, <<12290, <<33,35>>>>, <<12540, <<33,60>>>>, <<20124,
    <<48,33>>>>, <<29081, <<116,38>>>>>>
     [] n = "gbk" ->
    <<<<20013, <<214,208>>>>, <<25991, <<206,196>>>>, <<28450, <<157,104>>>>, <<23383, <<215,214>>>>, <<26085,
    <<200,213>>>>, <<26412, <<177,190>>>>, <<35486, <<213,90>>>>, <<20124, <<129,132>>>>, <<29081,
    <<206,245>>>>, <<12290, <<161,163>>>>, <<12289, <<161,162>>>>, <<233, <<168,166>>>>>>
     [] OTHER ->
    <<<<20013, <<164,164>>>>, <<25991, <<164,229>>>>, <<28450, <<186,126>>>>, <<23383, <<166,114>>>>, <<26085,
    <<164,233>>>>, <<26412, <<165,187>>>>, <<35486, <<187,121>>>>, <<12290, <<161,67>>>>, <<12289,
    <<161,66>>>>>>]

Singles == DOMAIN Upper
Doubles == DOMAIN Double
Utf16 == {"utf-16be", "utf-16le", "utf-16be-bom", "utf-16le-bom"}

CanEncode(enc, c) ==
  CASE enc \in Utf16 \cup {"utf-8"} -> TRUE
    [] c < 128 -> TRUE
    [] enc \in Singles -> \E i \in 1..128 : Upper[enc][i] = c
    [] OTHER -> \E i \in 1..Len(Double[enc]) : Double[enc][i][1] = c

LOCAL Lookup(enc, bs) ==
  LET t == Double[enc]
      hit == SelectInSeq(t, LAMBDA p : p[2] = bs)
  IN  IF hit = 0 THEN -1 ELSE t[hit][1]

LOCAL Lead(enc, b) ==
  CASE enc = "shift_jis" -> (b >= 129 /\ b <= 159) \/ (b >= 224 /\ b <= 252)
    [] enc = "euc-jp" -> b = 142 \/ (b >= 161 /\ b <= 254)
    [] OTHER -> b >= 129 /\ b <= 254

LOCAL DecSingle(enc, bs) == [i \in 1..Len(bs) |-> IF bs[i] < 128 THEN bs[i] ELSE Upper[enc][bs[i] - 127]]

LOCAL DecDouble(enc, bs) ==
  LET r == FoldLeft(LAMBDA a, b :
             IF a.p # <<>> THEN [s |-> Append(a.s, Lookup(enc, Append(a.p, b))), p |-> <<>>]
             ELSE IF b < 128 THEN [a EXCEPT !.s = Append(@, b)]
             ELSE IF Lead(enc, b) THEN [a EXCEPT !.p = <<b>>]
             ELSE [a EXCEPT !.s = Append(@, Lookup(enc, <<b>>))],
           [s |-> <<>>, p |-> <<>>], bs)
  IN  IF r.p = <<>> THEN r.s ELSE Append(r.s, -1)

(* ISO-2022-JP: escape sequences switch between ASCII and JIS X 0208 *)
LOCAL Dec2022(bs) ==
  LET r == FoldLeft(LAMBDA a, b :
             IF a.p # <<>> /\ a.p[1] = 27
             THEN LET q == Append(a.p, b) IN
                  IF Len(q) < 3 THEN [a EXCEPT !.p = q]
                  ELSE IF q = <<27, 40, 66>> THEN [a EXCEPT !.p = <<>>, !.two = FALSE]
                  ELSE IF q \in {<<27, 36, 66>>, <<27, 36, 64>>} THEN [a EXCEPT !.p = <<>>, !.two = TRUE]
                  ELSE [a EXCEPT !.p = <<>>, !.s = Append(@, -1)]
             ELSE IF a.p # <<>> THEN [a EXCEPT !.s = Append(@, Lookup("iso-2022-jp", Append(a.p, b))), !.p = <<>>]
             ELSE IF b = 27 \/ a.two THEN [a EXCEPT !.p = <<b>>]
             ELSE [a EXCEPT !.s = Append(@, b)],
           [s |-> <<>>, p |-> <<>>, two |-> FALSE], bs)
  IN  IF r.p = <<>> THEN r.s ELSE Append(r.s, -1)

LOCAL Dec16(big, bs) ==
  LET n == Len(bs) \div 2
      u == [i \in 1..n |-> IF big THEN bs[2*i - 1] * 256 + bs[2*i] ELSE bs[2*i] * 256 + bs[2*i - 1]]
      r == FoldLeft(LAMBDA a, x :
             IF a.hi >= 0
             THEN IF x >= 56320 /\ x <= 57343
                  THEN [s |-> Append(a.s, 65536 + (a.hi - 55296) * 1024 + (x - 56320)), hi |-> -1]
                  ELSE [s |-> Append(a.s, -1), hi |-> -1]
             ELSE IF x >= 55296 /\ x <= 56319 THEN [a EXCEPT !.hi = x]
             ELSE IF x >= 56320 /\ x <= 57343 THEN [a EXCEPT !.s = Append(@, -1)]
             ELSE [a EXCEPT !.s = Append(@, x)],
           [s |-> <<>>, hi |-> -1], u)
  IN  IF Len(bs) % 2 = 1 \/ r.hi >= 0 THEN Append(r.s, -1) ELSE r.s

LOCAL Drop(s, bom) == IF bom THEN IF s = <<>> THEN s ELSE IF s[1] = 65279 THEN Tail(s) ELSE <<-1>> \o s ELSE s

DecodeBytes(enc, bs) ==
  CASE enc \in Singles -> DecSingle(enc, bs)
    [] enc = "iso-2022-jp" -> Dec2022(bs)
    [] enc \in Doubles -> DecDouble(enc, bs)
    [] OTHER -> Drop(Dec16(enc \in {"utf-16be", "utf-16be-bom"}, bs), enc \in {"utf-16be-bom", "utf-16le-bom"})

(***************************************************************************)
(* d is ref, except that each character enc lacks is a numeric character   *)
(* reference to it                                                         *)
(***************************************************************************)
LOCAL HexVal(c) ==
  IF IsDigit(c) THEN c - 48 ELSE IF c >= 65 /\ c <= 70 THEN c - 55
  ELSE IF c >= 97 /\ c <= 102 THEN c - 87 ELSE -1

(* the reference at d[i]: its value and the position after it *)
LOCAL RefAt(d, i) ==
  LET no == [v |-> -1, i |-> i]
      ends == {j \in i..(IF i + 12 > Len(d) THEN Len(d) ELSE i + 12) : d[j] = 59}
  IN  IF i + 3 > Len(d) \/ d[i] # 38 \/ d[i + 1] # 35 \/ ends = {} THEN no
      ELSE LET e == CHOOSE j \in ends : \A k \in ends : j <= k
               hex == d[i + 2] = 120
               base == IF hex THEN 16 ELSE 10
               ds == SubSeq(d, IF hex THEN i + 3 ELSE i + 2, e - 1)
               v == FoldLeft(LAMBDA a, c : IF a < 0 \/ HexVal(c) < 0 \/ HexVal(c) >= base THEN -1 ELSE a * base + HexVal(c), 0, ds)
           IN  IF ds = <<>> \/ Len(ds) > 7 THEN no ELSE [v |-> v, i |-> e + 1]

(* 0, or the position in ref from which d differs *)
Differs(enc, ref, d) ==
  LET r == FoldLeft(LAMBDA a, k :
             IF a.bad # 0 THEN a
             ELSE LET c == ref[k] IN
                  IF CanEncode(enc, c)
                  THEN IF a.i <= Len(d) /\ d[a.i] = c THEN [a EXCEPT !.i = @ + 1] ELSE [a EXCEPT !.bad = k]
                  ELSE LET x == RefAt(d, a.i) IN IF x.v = c THEN [a EXCEPT !.i = x.i] ELSE [a EXCEPT !.bad = k],
           [i |-> 1, bad |-> 0], [k \in 1..Len(ref) |-> k])
  IN  IF r.bad # 0 THEN r.bad ELSE IF r.i = Len(d) + 1 THEN 0 ELSE Len(ref) + 1
=============================================================================
