----------------------------- MODULE MCDecimal -----------------------------
(***************************************************************************)
(* Decimal.tla against a definition a reader can check, on small numbers;  *)
(* and the values of the machine types that lie at edges, printed for the  *)
(* code.                                                                   *)
(*                                                                         *)
(* The small floats have 3 bits of fraction and 3 of exponent (bias 3).    *)
(* Rounding is defined by distance: a decimal reads as the float nearest   *)
(* to it, of two equally near ones as that with the even fraction.         *)
(***************************************************************************)
EXTENDS Decimal, FiniteSets, Json
CONSTANTS MaxN, MaxD, MaxK
VARIABLES what, n

Smalls == {[ex |-> e, fr |-> f] : e \in 0..6, f \in 0..7}
OfInt(i) == Trim(<<i % Base, i \div Base>>)
SmallFloat(x) == Decoded(FALSE, x.ex, OfInt(x.fr), 3, 3, 7)

(* the value in units of 1/32 000 000 = 2^-11 * 10^-? is an integer: in units *)
(* of 2^-5 a small float is (fr or 8 + fr) * 2^(ex or 1, less 1)               *)
Units(x) == (IF x.ex = 0 THEN x.fr ELSE 8 + x.fr) * 2 ^ ((IF x.ex = 0 THEN 1 ELSE x.ex) - 1)
Abs(i) == IF i < 0 THEN -i ELSE i

(* d * 10^k, k from -3 to 2, in units of 2^-5 / 1000 *)
Dec(d, k) == d * 10 ^ (k + 3) * 32
Dist(x, d, k) == Abs(Units(x) * 1000 - Dec(d, k))

(* what would be the float above the largest counts as one too *)
Above == 16 * 2 ^ 5
IsNearest(x, d, k) ==
  /\ \A y \in Smalls : \/ Dist(x, d, k) < Dist(y, d, k)
                       \/ Dist(x, d, k) = Dist(y, d, k) /\ (x.fr % 2 = 0 \/ y = x)
  /\ Dist(x, d, k) < Abs(Above * 1000 - Dec(d, k))

(* the work is in the second states of each chain *)
InitD == \/ what \in {"int", "read"} /\ n \in {i \in 0..MaxN : i % 32 = 0}
         \/ what = "float" /\ n \in 0..55
         \/ what = "type" /\ n \in 1..12
NextD == \/ what \in {"int", "read"} /\ n < MaxN /\ (n + 1) % 32 # 0 /\ n' = n + 1 /\ UNCHANGED what
         \/ what = "float" /\ what' = "short" /\ UNCHANGED n
         \/ what = "type" /\ what' = "value" /\ UNCHANGED n

Places == {<<d, k>> \in (1..MaxD) \X (-3..MaxK) : d * 10 ^ (k + 3) < 100000}
(* the types and how many bytes their values have *)
IntTypes == <<<<"int8", 1>>, <<"int16", 2>>, <<"int32", 4>>, <<"int64", 8>>, <<"int", 8>>,
              <<"uint8", 1>>, <<"uint16", 2>>, <<"uint32", 4>>, <<"uint64", 8>>, <<"uint", 8>>>>

(* bit i of w bytes alone, the bits below it, it and the lowest, and their opposites *)
Bit(w, i) == [j \in 1..w |-> IF (w - j) = i \div 8 THEN 2 ^ (i % 8) ELSE 0]
Below(w, i) == [j \in 1..w |-> IF (w - j) < i \div 8 THEN 255 ELSE IF (w - j) = i \div 8 THEN 2 ^ (i % 8) - 1 ELSE 0]
With1(w, i) == [Bit(w, i) EXCEPT ![w] = IF i > 0 /\ i < 8 THEN 2 ^ i + 1 ELSE 1]
Opposite(bs) == [j \in 1..Len(bs) |-> 255 - bs[j]]
Edges(w) == LET some == UNION {{Bit(w, i), Below(w, i), With1(w, i)} : i \in 0..(8 * w - 1)} IN some \cup {Opposite(x) : x \in some}

(* every exponent, with extreme fractions and some between *)
Fractions(w, first) ==
  LET r(x, y) == [j \in 1..w |-> IF j = 1 THEN x ELSE y]
  IN  {r(0, 0), [r(0, 0) EXCEPT ![w] = 1], r(first - 1, 255), [r(first - 1, 255) EXCEPT ![w] = 254],
       r(first \div 2, 0), [r(first \div 2, 0) EXCEPT ![w] = 1], r(first \div 2 - 1, 255), r(first \div 3, 85), r(first - 2, 170)}
F64 == {<<s * 128 + e \div 16, (e % 16) * 16 + f[1]>> \o Tail(f) : s \in 0..1, e \in 0..2047, f \in Fractions(7, 16)}
F32 == {<<s * 128 + e \div 2, (e % 2) * 128 + f[1]>> \o Tail(f) : s \in 0..1, e \in 0..255, f \in Fractions(3, 128)}

Show(t, vs) == \A v \in vs : PrintT("@V " \o ToJson([t |-> t, b |-> v]))

(* limbs and digits are those of the numbers they stand for *)
Agree ==
  CASE what = "int" ->
         LET a == n * 37
             q == <<a \div 65536, (a \div 256) % 256, a % 256>>
         IN  /\ OfBytes(q) = OfInt(a)
             /\ OfDigits(DigitsOf(OfInt(a))) = OfInt(a)
             /\ UintText(q) = B(ToString(a))
             /\ MulNat(OfInt(a), OfInt(n)) = AddNat(MulSmall(OfInt(a), n % Base, 0), ShiftLimbs(MulSmall(OfInt(a), n \div Base, 0), 1))
             /\ a > 9 => LessSmall(OfInt(a), 7) = OfInt(a - 7)
             /\ n < 256 => IntText(<<n>>) = B(ToString(IF n > 127 THEN n - 256 ELSE n))
             /\ n < 60000 => IntText(<<n \div 256, n % 256>>) = B(ToString(IF n > 32767 THEN n - 65536 ELSE n))
             /\ CmpNat(OfInt(a), OfInt(n)) = IF n = 0 THEN 0 ELSE 1
    [] what = "read" ->
         \A k \in -3..MaxK : n * 10 ^ (k + 3) < 200000 =>
            \A x \in Smalls : ReadsAs(SmallFloat(x), OfInt(n), k) = IsNearest(x, n, k)
    [] what = "short" ->
         \* no decimal of fewer digits that reads as the same float is missed
         LET x == [ex |-> n \div 8, fr |-> n % 8]
             ps == {q \in Places : IsNearest(x, q[1], q[2])}
         IN  \A p \in ps : p[1] % 10 # 0 =>
               LET ds == DigitsOf(OfInt(p[1]))
               IN  Fewest(SmallFloat(x), ds, p[2]) <=> ~\E q \in ps : q[1] < 10 ^ (Len(ds) - 1)
    [] what = "value" ->
         IF n <= 10 THEN Show(IntTypes[n][1], Edges(IntTypes[n][2]))
         ELSE IF n = 11 THEN Show("float32", F32) ELSE Show("float64", F64)
    [] OTHER -> TRUE
=============================================================================
