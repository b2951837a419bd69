---------------------------- MODULE TraceScript ----------------------------
(* C22: scripts run by the real gotester.  A line holds the script, what its *)
(* process did (exit status, output) and what the calls the driver took it   *)
(* to mean did when made directly.                                           *)
EXTENDS Script, Json, IOUtils

Lines == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tr
T == Lines[tr]

NoVia(op) == [f \in DOMAIN op \ {"via"} |-> op[f]]

Wrong ==
  LET m == Meaning(T.cmds)
      ops == [i \in 1..Len(T.ops) |-> NoVia(T.ops[i])]
      refused == \E i \in 1..Len(T.errs) : T.errs[i]
  IN  IF m.ok # T.ok \/ m.ops # ops \/ m.enc # T.enc THEN "driver"
      ELSE IF T.hang THEN "hang"
      ELSE IF ~m.ok THEN (IF T.rc = 0 THEN "accepted" ELSE "")
      ELSE IF refused THEN (IF T.rc = 0 THEN "refusal ignored" ELSE "")
      ELSE IF T.rc # 0 THEN "failed"
      ELSE IF T.out # T.ref THEN "output"
      ELSE ""

ScriptInit == tr \in 1..Len(Lines)
ScriptNext ==
  /\ tr > 0
  /\ Wrong # "" => PrintT("@MISMATCH " \o ToJson([id |-> T.id, kind |-> Wrong, want |-> Meaning(T.cmds)]))
  /\ PrintT("@DONE " \o ToString(T.id) \o " 1")
  /\ tr' = -tr
TraceSpec == ScriptInit /\ [][ScriptNext]_tr
=============================================================================
