----------------------------- MODULE TraceWriter -----------------------------
(***************************************************************************)
(* Trace validation.  Every line of the trace file is one recorded run of  *)
(* the real writer: its configuration, and for each call the call, whether *)
(* it returned an error, the depth afterwards, the bytes it added to the   *)
(* document and the events its indenter saw.  All lines are validated in   *)
(* one TLC run (one behaviour per line).                                   *)
(*                                                                         *)
(* j says what is judged:                                                  *)
(*   step   each call against XmlWriter!Apply                              *)
(*   evs    the indenter's events as well                                  *)
(*   wf     the whole output against the reader of XmlGrammar              *)
(*   tree   the reader's events against the meaning of the history         *)
(***************************************************************************)
EXTENDS XmlWriter, Repeat, XmlGrammar, XmlTree, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES tr, l, m, t, doc, stop

vars == <<tr, l, m, t, doc, stop>>

T == Traces[tr]

TraceInit ==
  /\ tr \in 1..Len(Traces)
  /\ l = 1
  /\ m = Init(Traces[tr].cfg)
  /\ t = TInit(Traces[tr].cfg.nl, Traces[tr].cfg.enc, Traces[tr].cfg.ver)
  /\ doc = [ok |-> TRUE, s |-> <<>>]      \* output so far; ok: still judged as a whole
  /\ stop = ""

Report(kind, rest) ==
  PrintT("@MISMATCH " \o ToJson([id |-> T.id, l |-> l, kind |-> kind] @@ rest))

(* what is wrong with event e, given that the specification says m1 *)
StepVerdict(e, m1) ==
  IF e.pan THEN "panic"
  ELSE IF e.err # (m1.res # "ok") THEN "error"
  ELSE IF m1.res = "fail" THEN ""
  ELSE IF e.dep # T.dep0 + Len(m1.stk) THEN "depth"
  ELSE IF e.out # m1.out THEN "output"
  ELSE IF IsRep(e.op) /\ m1.res = "ok" /\ e.more # m1.more THEN "output"
  ELSE IF IsRep(e.op) /\ ~e.same THEN "output"
  ELSE IF T.j.evs /\ ~IsRep(e.op) /\ e.evs # m1.evs THEN "events"
  ELSE ""

Whole == T.j.wf \/ T.j.tree

(* Does the call leave the history meaningful as a whole?  An accepted call
   does; a refused one does if it was refused cleanly. *)
(* At top level the writer takes pieces of a construct too (fragments): the
   whole is then no document. *)
Piece(op) ==
  /\ m.stk = <<>>
  /\ op.o \in {"write", "attrs"}
  /\ \E i \in 1..Len(op.ns) : op.ns[i].k \in {"attr", "dtdattr", "ccontent", "cdcontent"}
DepBefore == IF l = 1 THEN T.dep0 ELSE T.ev[l - 1].dep
KeepsWhole(e, m1) ==
  ~e.pan /\ ~IsRep(e.op) /\ ~Piece(e.op) /\ (e.err => m1.res = "rej" /\ SingleCall(e.op) /\ e.out = <<>> /\ e.dep = DepBefore)

(* A recorded finding: a processing instruction without a target is accepted,
   and what it writes is malformed.  TestLast needs it. *)
NoTarget(e) == ~e.err /\ e.op.o = "write" /\ \E i \in 1..Len(e.op.ns) : e.op.ns[i].k = "pi" /\ e.op.ns[i].n = <<>>

Consume ==
  /\ stop = ""
  /\ l <= Len(T.ev)
  \* values are bound by \E over singletons: TLC evaluates those once
  /\ \E e \in {T.ev[l]} : \E m1 \in {IF IsRep(e.op) THEN Repeated(m, e.op) ELSE Apply(m, e.op)} :
     \E v \in {IF T.j.step THEN StepVerdict(e, m1) ELSE IF e.pan THEN "panic" ELSE ""} :
     \E d1 \in {IF Whole /\ doc.ok
                THEN [ok |-> KeepsWhole(e, m1), s |-> doc.s \o e.out] ELSE [doc EXCEPT !.ok = FALSE]} :
         /\ m' = Without(m1)
         /\ doc' = d1
         /\ t' = IF T.j.tree /\ d1.ok /\ ~e.err THEN TApply(t, e.op) ELSE t
         /\ stop' = IF v # "" THEN "bad"
                    ELSE IF T.j.step /\ m1.res = "fail" THEN "end"
                    ELSE ""
         /\ (v = "" /\ T.j.step /\ m.cfg.enf /\ NoTarget(e)) => PrintT("@KNOWN step pi-empty-target")
         /\ v # "" => Report(v, [op |-> e.op, got |-> [err |-> e.err, dep |-> e.dep, out |-> e.out, evs |-> e.evs],
                                 want |-> [res |-> m1.res, dep |-> T.dep0 + Len(m1.stk), out |-> m1.out, evs |-> m1.evs]])
  /\ l' = l + 1
  /\ UNCHANGED tr

Known == \E i \in 1..Len(T.ev) : NoTarget(T.ev[i])

Closed == IF T.ev = <<>> THEN FALSE ELSE T.ev[Len(T.ev)].dep = T.dep0

WholeVerdict ==
  IF ~(Whole /\ doc.ok /\ Closed /\ stop = "") THEN [v |-> "", n |-> 0, why |-> ""]
  ELSE LET p == Parse(doc.s)
       IN  IF ~p.ok /\ Known THEN [v |-> "known", n |-> 0, why |-> ""]
           ELSE IF ~p.ok THEN [v |-> "malformed", n |-> p.at, why |-> p.why]
           ELSE IF T.j.tree /\ ~SameTree(t, p.evs) THEN [v |-> "tree", n |-> Len(p.evs), why |-> ""]
           ELSE [v |-> "", n |-> Len(p.evs), why |-> ""]

Finish ==
  /\ stop # "done"
  /\ stop # "" \/ l > Len(T.ev)
  /\ \E w \in {WholeVerdict} :
     /\ w.v = "known" => PrintT("@KNOWN whole pi-empty-target")
     /\ w.v \notin {"", "known"} => Report(w.v, [doc |-> doc.s, at |-> w.n, why |-> w.why])
     /\ PrintT("@DONE " \o ToString(T.id) \o " " \o ToString(l - 1) \o " " \o stop \o "/" \o w.v \o " " \o ToString(w.n))
  /\ stop' = "done"
  /\ UNCHANGED <<tr, l, m, t, doc>>

TraceNext == Consume \/ Finish

TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
