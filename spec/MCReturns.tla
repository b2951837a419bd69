------------------------------ MODULE MCReturns ------------------------------
(***************************************************************************)
(* Every history of MaxOps calls over an alphabet, whatever the calls did, *)
(* printed for the driver to run.  The state is what Returns knows: d      *)
(* ranges over everything the calls may have left; Sane shows that the     *)
(* limits hold together (they are never empty but for the setters, nothing *)
(* goes below zero, ending everything is always possible).                 *)
(***************************************************************************)
EXTENDS Returns, Json
CONSTANTS Small, MaxOps
VARIABLES h, s

ROps == IF Small = 1 THEN SmallOps ELSE AllOps

InitR == h = <<>> /\ s = {RInit}

After(ss, op) ==
  UNION {{[d |-> x, h |-> Height(z, op)] : x \in Done(z, op) \cup Failed(z, op, Height(z, op))} : z \in ss}

NextR == Len(h) < MaxOps /\ \E i \in 1..Len(ROps) : h' = Append(h, i) /\ s' = After(s, ROps[i])

Sane == /\ s # {}
        /\ \A z \in s : z.d >= 0 /\ Done(z, O("endall")) = {0}
        /\ (Len(h) = MaxOps => PrintT("@H " \o ToJson(h)))

ASSUME PrintT("@OPS " \o ToJson(ROps)) /\ PrintT("@CFGS " \o ToJson(RCfgs))
=============================================================================
