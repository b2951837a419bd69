------------------------------- MODULE MCMany -------------------------------
(***************************************************************************)
(* C20: several writers made from the same option values and fed with the  *)
(* same node values, interleaved call by call.  Every transition is        *)
(* printed for the driver to replay on real writers.                       *)
(***************************************************************************)
EXTENDS XmlWriter, FiniteSets, Json

CONSTANTS NWriters, MaxOps, MaxOpen

VARIABLES cf, h, w, past
vars == <<cf, h, w, past>>

El(n) == [k |-> "elem", p |-> <<>>, u |-> <<>>, n |-> B(n), at |-> <<>>, c |-> <<>>, f |-> FALSE]
At(p, u, n, v) == [k |-> "attr", p |-> B(p), u |-> B(u), n |-> B(n), v |-> B(v)]
Txt(s) == [k |-> "text", s |-> B(s)]
One(o, n) == [o |-> o, ns |-> <<n>>, via |-> 0]

Nested == [El("a") EXCEPT !.at = <<At("", "", "x", "1")>>, !.c = <<El("b")>>]
Spaced == [El("c") EXCEPT !.p = B("p"), !.u = B("u"), !.at = <<At("q", "v", "y", "2")>>]

Ops == <<
  One("start", Nested), One("start", Spaced), One("write", Nested), One("attrs", At("p", "u", "z", "3")),
  One("write", Txt("t")), One("write", [k |-> "comment", s |-> B("m")]),
  [o |-> "endany", via |-> 0], [o |-> "endall", via |-> 0],
  [o |-> "endallflush", via |-> 0] >>

Cfgs == <<[DefaultCfg EXCEPT !.ind = "std"], DefaultCfg>>

(* a document the first writer may have written before *)
Done == <<2, 5, 9>>
After(c, hh) == FoldLeft(LAMBDA m, i : Apply(m, Ops[i]), Init(c), hh)

Init0 ==
  /\ cf \in 1..Len(Cfgs)
  /\ past \in {<<>>, Done}
  /\ h = [j \in 1..Len(past) |-> <<1, past[j]>>]
  /\ w = [k \in 1..NWriters |-> After(Cfgs[cf], IF k = 1 THEN past ELSE <<>>)]

(* what writer k was asked to do *)
Projection(hh, k) == [j \in 1..Len(SelectSeq(hh, LAMBDA x : x[1] = k)) |-> SelectSeq(hh, LAMBDA x : x[1] = k)[j][2]]
Alone(k, hh) == After(Cfgs[cf], Projection(hh, k))

Step(k, i) ==
  \E m1 \in {Apply(w[k], Ops[i])} :
  /\ k <= 1 + Cardinality({h[j][1] : j \in 1..Len(h)})      \* writers are interchangeable
  /\ PrintT("@T " \o ToJson(<<cf, [j \in 1..Len(h) |-> 100 * h[j][1] + h[j][2]], 100 * k + i, m1.res, Len(m1.stk), m1.out, <<>>, <<>>>>))
  /\ m1.res # "fail" /\ Len(m1.stk) <= MaxOpen
  /\ w' = [w EXCEPT ![k] = m1]
  /\ h' = Append(h, <<k, i>>)
  /\ UNCHANGED <<cf, past>>

Next0 == Len(h) - Len(past) < MaxOps /\ \E k \in 1..NWriters, i \in 1..Len(Ops) : Step(k, i)
Spec0 == Init0 /\ [][Next0]_vars

Independent == \A k \in 1..NWriters : Core(w[k]) = Core(Alone(k, h)) /\ (h # <<>> /\ h[Len(h)][1] = k => w[k] = Alone(k, h))

ASSUME PrintT("@OPS " \o ToJson(Ops)) /\ PrintT("@CFGS " \o ToJson(Cfgs))
=============================================================================
