------------------------------ MODULE MCChecks ------------------------------
(***************************************************************************)
(* The interval lists of TraceChecks and the predicates of Chars are the   *)
(* same sets, and the five productions relate as XML says they do.         *)
(***************************************************************************)
EXTENDS TraceChecks

CONSTANT Block      \* code points per state
VARIABLE b

Lanes == 16
Init1 == tr = 0 /\ b \in 0..(Lanes - 1)
Next1 == b + Lanes <= MaxCP \div Block /\ b' = b + Lanes /\ tr' = tr

Agree ==
  \A c \in (b * Block)..(b * Block + Block - 1) :
     c > MaxCP \/
     /\ In(Char, c) = IsXmlChar(c)
     /\ In(StrictChar, c) = (IsXmlChar(c) /\ ~IsDiscouraged(c))
     /\ In(Start, c) = IsNameStart(c)
     /\ In(Rest, c) = IsNameChar(c)
     /\ In(EncStart, c) = IsAlpha(c)
     /\ In(EncRest, c) = IsEncChar(c)
     /\ In(Pubid, c) = IsPubidChar(c)
     /\ IsNameStart(c) => IsNameChar(c)
     /\ IsNameChar(c) => IsXmlChar(c)
     /\ IsEncChar(c) => IsNameChar(c)

Maximal == \A iv \in {Char, StrictChar, Start, Rest, EncStart, EncRest, Pubid} : Sorted(iv)
=============================================================================
