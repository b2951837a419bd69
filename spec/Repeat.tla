------------------------------- MODULE Repeat -------------------------------
(***************************************************************************)
(* The same calls made very many times: [o |-> "rep", d |-> n, ops |-> s]  *)
(* is n passes over the calls s, which together leave open what was open.  *)
(*                                                                         *)
(* From the second pass on every pass writes the same and moves nothing    *)
(* but the counters (Steady, checked on every use), so that n passes are   *)
(* known from three of them, however large n is.                           *)
(***************************************************************************)
EXTENDS XmlWriter

IsRep(op) == op.o = "rep"

Pass(m, ops) == FoldLeft(LAMBDA a, op : Then(a, LAMBDA x : Do(x, op)), Fresh(m), ops)

(* the state without what counts *)
Still(m) ==
  [Core(m) EXCEPT !.lv = [@ EXCEPT ![Len(@)] = 0],
                  !.stk = IF @ = <<>> THEN @ ELSE [@ EXCEPT ![Len(@)].ch = 0]]

Steady(a, b) == a.out = b.out /\ Still(a) = Still(b)

(* k passes further, each counting as b does after a *)
Further(a, b, k) ==
  [b EXCEPT !.lv[Len(b.lv)] = @ + (k * (@ - a.lv[Len(a.lv)])),
            !.nev = @ + (k * (@ - a.nev)),
            !.evs = <<>>,
            !.stk = IF @ = <<>> THEN @ ELSE [@ EXCEPT ![Len(@)].ch = @ + (k * (@ - Top(a).ch))]]

(* the state after n > 2 passes: out is what the first pass writes, more what
   every later one does *)
Repeated(m, op) ==
  LET m1 == Pass(m, op.ops)
  IN  IF m1.res # "ok" THEN m1 @@ [more |-> <<>>]
      ELSE LET m2 == Pass(m1, op.ops)
               m3 == Pass(m2, op.ops)
           IN  IF Assert(m3.res = "ok" /\ Steady(m2, m3), <<"not steady", op>>)
               THEN [Further(m2, m3, op.d - 3) EXCEPT !.out = m1.out] @@ [more |-> m2.out]
               ELSE m1 @@ [more |-> <<>>]

Without(m) == [f \in DOMAIN m \ {"more"} |-> m[f]]
=============================================================================
