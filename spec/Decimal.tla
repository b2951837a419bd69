------------------------------ MODULE Decimal -------------------------------
(***************************************************************************)
(* Numbers as text.  Naturals of any size are sequences of limbs, base     *)
(* 10000, the least significant first, without leading zero limbs.  Values *)
(* of machine types are given as their bytes, the most significant first:  *)
(* two's complement for the signed types, IEEE 754 for the floats.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, Chars

Base == 10000

RECURSIVE Trim(_)
Trim(a) == IF a # <<>> /\ a[Len(a)] = 0 THEN Trim(SubSeq(a, 1, Len(a) - 1)) ELSE a

(* a * m + c, for m < Base *)
MulSmall(a, m, c) ==
  IF m = 0 THEN Trim(<<c % Base, c \div Base>>)
  ELSE LET f == FoldLeft(LAMBDA r, x : [s |-> Append(r.s, (x * m + r.c) % Base), c |-> (x * m + r.c) \div Base],
                         [s |-> <<>>, c |-> c], a)
       IN  Trim(f.s \o <<f.c % Base, f.c \div Base>>)

Limb(a, i) == IF i <= Len(a) THEN a[i] ELSE 0

AddNat(a, b) ==
  LET n == IF Len(a) > Len(b) THEN Len(a) ELSE Len(b)
      f == FoldLeft(LAMBDA r, i : LET x == Limb(a, i) + Limb(b, i) + r.c
                                  IN  [s |-> Append(r.s, x % Base), c |-> x \div Base],
                    [s |-> <<>>, c |-> 0], [i \in 1..n |-> i])
  IN  Trim(Append(f.s, f.c))

(* a - n, for n no more than a and less than Base *)
LessSmall(a, n) ==
  LET f == FoldLeft(LAMBDA r, x : IF x >= r.b THEN [s |-> Append(r.s, x - r.b), b |-> 0]
                                  ELSE [s |-> Append(r.s, x + Base - r.b), b |-> 1],
                    [s |-> <<>>, b |-> n], a)
  IN  Trim(f.s)

ShiftLimbs(a, n) == IF a = <<>> THEN a ELSE [i \in 1..n |-> 0] \o a

MulNat(a, b) ==
  FoldLeft(LAMBDA r, i : AddNat(ShiftLimbs(r, 1), MulSmall(b, a[Len(a) + 1 - i], 0)),
           <<>>, [i \in 1..Len(a) |-> i])

(* -1, 0, 1 *)
CmpNat(a, b) ==
  IF Len(a) # Len(b) THEN (IF Len(a) < Len(b) THEN -1 ELSE 1)
  ELSE LET d == {i \in 1..Len(a) : a[i] # b[i]}
       IN  IF d = {} THEN 0
           ELSE LET i == CHOOSE x \in d : \A y \in d : y <= x IN IF a[i] < b[i] THEN -1 ELSE 1

Ten(n) == CASE n = 0 -> 1 [] n = 1 -> 10 [] n = 2 -> 100 [] OTHER -> 1000
TimesTen(a, n) == ShiftLimbs(MulSmall(a, Ten(n % 4), 0), n \div 4)

(* 2^n *)
Powers2 == FoldLeft(LAMBDA r, i : Append(r, MulSmall(r[Len(r)], 2, 0)), <<<<1>>>>, [i \in 1..1200 |-> i])
TimesTwo(a, n) == IF n = 0 THEN a ELSE MulNat(a, Powers2[n + 1])

OfBytes(bs) == FoldLeft(LAMBDA r, b : MulSmall(r, 256, b), <<>>, bs)

(* the digits, as numbers, the most significant first; none for 0 *)
DigitsOf(a) ==
  LET four(x) == <<x \div 1000, (x \div 100) % 10, (x \div 10) % 10, x % 10>>
      all == FoldLeft(LAMBDA r, x : four(x) \o r, <<>>, a)
      nz == SelectInSeq(all, LAMBDA d : d # 0)
  IN  IF nz = 0 THEN <<>> ELSE SubSeq(all, nz, Len(all))

OfDigits(ds) == FoldLeft(LAMBDA r, d : MulSmall(r, 10, d), <<>>, ds)

Text(ds) == IF ds = <<>> THEN <<48>> ELSE [i \in 1..Len(ds) |-> ds[i] + 48]

(* -- integers ------------------------------------------------------------ *)
UintText(bs) == Text(DigitsOf(OfBytes(bs)))

IntText(bs) ==
  IF bs[1] < 128 THEN UintText(bs)
  ELSE B("-") \o Text(DigitsOf(MulSmall(OfBytes([i \in 1..Len(bs) |-> 255 - bs[i]]), 1, 1)))

(* -- floats -------------------------------------------------------------- *)
(* m * 2^e, in a format of p bits of precision, the smallest exponent emin  *)
Decoded(neg, ex, frac, fracbits, bias, top) ==
  [neg |-> neg, special |-> ex = top, nan |-> ex = top /\ frac # <<>>,
   m |-> IF ex = 0 THEN frac ELSE AddNat(frac, Powers2[fracbits + 1]),
   e |-> (IF ex = 0 THEN 1 ELSE ex) - bias - fracbits,
   \* the next value below is only half as far away
   edge |-> frac = <<>> /\ ex > 1]

Float64(bs) == Decoded(bs[1] >= 128, (bs[1] % 128) * 16 + bs[2] \div 16,
                       OfBytes(<<bs[2] % 16>> \o SubSeq(bs, 3, 8)), 52, 1023, 2047)
Float32(bs) == Decoded(bs[1] >= 128, (bs[1] % 128) * 2 + bs[2] \div 128,
                       OfBytes(<<bs[2] % 128>> \o SubSeq(bs, 3, 4)), 23, 127, 255)

EvenNat(a) == a = <<>> \/ a[1] % 2 = 0

(* Does the decimal d * 10^k read back as f (rounding to nearest, ties to     *)
(* even)?  Everything is compared as a multiple of 2^(e-2).                   *)
ReadsAs(f, d, k) ==
  LET e2 == f.e - 2
      up(x) == TimesTen(IF e2 > 0 THEN TimesTwo(x, e2) ELSE x, IF k < 0 THEN -k ELSE 0)
      dn(x) == LET y == IF k > 0 THEN TimesTen(x, k) ELSE x IN IF e2 < 0 THEN TimesTwo(y, -e2) ELSE y
      m4 == MulSmall(f.m, 4, 0)
      here == dn(d)
      hi == CmpNat(here, up(MulSmall(f.m, 4, 2)))
      lo == CmpNat(here, up(LessSmall(m4, IF f.edge THEN 1 ELSE 2)))
  IN  IF f.m = <<>> THEN hi < 0 \/ hi = 0
      ELSE /\ hi < 0 \/ (hi = 0 /\ EvenNat(f.m))
           /\ lo > 0 \/ (lo = 0 /\ EvenNat(f.m))

(* Are the digits as few as possible?  A decimal with fewer would lie on the *)
(* coarser grid; if one reads as f, so does one next to d * 10^k.            *)
Fewest(f, ds, k) ==
  \/ Len(ds) = 1
  \/ LET t == OfDigits(SubSeq(ds, 1, Len(ds) - 1))
     IN  ~ReadsAs(f, t, k + 1) /\ ~ReadsAs(f, MulSmall(t, 1, 1), k + 1)

(* the usual layout of the number ds[1].ds[2]... * 10^x: in full for exponents *)
(* from -4 to 5, with an exponent of two digits or more otherwise            *)
Layout(neg, ds, x) ==
  LET t == Text(ds)
      n == Len(ds)
      two(v) == IF v < 10 THEN <<48>> \o Text(<<v>>) ELSE Text(DigitsOf(MulSmall(<<v>>, 1, 0)))
      body == IF x < -4 \/ x >= 6
              THEN <<t[1]>> \o (IF n > 1 THEN B(".") \o SubSeq(t, 2, n) ELSE <<>>)
                   \o (IF x < 0 THEN B("e-") \o two(-x) ELSE B("e") \o <<43>> \o two(x))
              ELSE IF x < 0 THEN B("0.") \o [i \in 1..(-x - 1) |-> 48] \o t
              ELSE IF n <= x + 1 THEN t \o [i \in 1..(x + 1 - n) |-> 48]
              ELSE SubSeq(t, 1, x + 1) \o B(".") \o SubSeq(t, x + 2, n)
  IN  (IF neg THEN B("-") ELSE <<>>) \o body

(* the number a text stands for: sign, digits without zeros at the ends, and *)
(* the exponent of the first of them                                        *)
IsDecDigit(c) == c >= 48 /\ c <= 57
Zero == [ok |-> TRUE, neg |-> FALSE, ds |-> <<>>, x |-> 0]
Bad == [ok |-> FALSE, neg |-> FALSE, ds |-> <<>>, x |-> 0]

Parse(s) ==
  LET neg == s # <<>> /\ s[1] = 45
      u == IF neg THEN Tail(s) ELSE s
      at == SelectInSeq(u, LAMBDA c : c = 101)
      man == IF at = 0 THEN u ELSE SubSeq(u, 1, at - 1)
      exs == IF at = 0 THEN <<>> ELSE SubSeq(u, at + 1, Len(u))
      exneg == exs # <<>> /\ exs[1] = 45
      exd == IF exs # <<>> /\ exs[1] \in {43, 45} THEN Tail(exs) ELSE exs
      dot == SelectInSeq(man, LAMBDA c : c = 46)
      int == IF dot = 0 THEN man ELSE SubSeq(man, 1, dot - 1)
      frac == IF dot = 0 THEN <<>> ELSE SubSeq(man, dot + 1, Len(man))
      all == int \o frac
      digits(q) == \A i \in 1..Len(q) : IsDecDigit(q[i])
      ex == FoldLeft(LAMBDA r, c : r * 10 + c - 48, 0, exd) * (IF exneg THEN -1 ELSE 1)
      first == SelectInSeq(all, LAMBDA c : c # 48)
      last == SelectLastInSeq(all, LAMBDA c : c # 48)
  IN  IF ~(digits(int) /\ digits(frac) /\ int # <<>> /\ digits(exd) /\ Len(exd) <= 4
           /\ (at = 0 \/ exd # <<>>) /\ (dot = 0 \/ frac # <<>>)) THEN Bad
      ELSE IF first = 0 THEN [Zero EXCEPT !.neg = neg]
      ELSE [ok |-> TRUE, neg |-> neg, ds |-> [i \in 1..(last + 1 - first) |-> all[first + i - 1] - 48],
            x |-> Len(int) - first + ex]

FloatTextOk(f, s) ==
  IF f.nan THEN s = B("NaN")
  ELSE IF f.special THEN s = IF f.neg THEN B("-Inf") ELSE <<43>> \o B("Inf")
  ELSE IF f.m = <<>> THEN s = IF f.neg THEN B("-0") ELSE B("0")
  ELSE LET p == Parse(s)
           k == p.x - (Len(p.ds) - 1)
       IN  /\ p.ok /\ p.ds # <<>> /\ p.neg = f.neg
           /\ s = Layout(p.neg, p.ds, p.x)
           /\ ReadsAs(f, OfDigits(p.ds), k)
           /\ Fewest(f, p.ds, k)
=============================================================================
