------------------------------ MODULE MCWriter ------------------------------
(***************************************************************************)
(* Exhaustive exploration of XmlWriter over small alphabets of calls.      *)
(*                                                                         *)
(* Every transition of the bounded state graph is a test for the real      *)
(* writer: it is printed as                                                *)
(*    "@T [cfg, history, call, result, open nodes, bytes, events]"      *)
(* (calls and configurations by index, the tables are printed first) and   *)
(* the driver replays it.  On every transition the properties of the       *)
(* design are asserted: refused calls are inert (RejectionInert), the      *)
(* whole output reads back as what was written (WholeOk), validation off   *)
(* agrees with validation on (LaxAgrees).                                  *)
(*                                                                         *)
(* What is distinguished (View): the abstract state and the last Memory    *)
(* calls, so that calls that leave the abstract state alone (refusals) are *)
(* still followed by every other call; Memory >= MaxOps explores every     *)
(* history.                                                                *)
(***************************************************************************)
EXTENDS XmlWriter, XmlGrammar, XmlTree, Expand, Calls, Json

CONSTANTS Alphabet, MaxOps, MaxOpen, Memory, Emit01, Close01

VARIABLES cf, h, m, doc, t, whole
vars == <<cf, h, m, doc, t, whole>>

OpsOf ==
  CASE Alphabet = "place" -> PlaceOps
    [] Alphabet = "ends" -> EndsOps
    [] Alphabet = "tags" -> TagsOps
    [] Alphabet = "ns" -> NsOps
    [] Alphabet = "content" -> ContentOps
    [] Alphabet = "pi" -> PiOps
    [] Alphabet = "names" -> NameOps
    [] Alphabet = "decl" -> DeclOps
    [] Alphabet = "dtd" -> DtdOps
    [] Alphabet = "doc" -> DocOps
    [] Alphabet = "docafter" -> DocAfter
    [] Alphabet \in {"indent", "events"} -> IndentOps
    [] Alphabet = "layout" -> LayoutOps
    [] Alphabet = "inline" -> InlineOps
    [] Alphabet = "lax" -> LaxOps
    [] Alphabet = "bulk" -> BulkOps
    [] Alphabet = "past" -> PastOps

Ops == OpsOf

Plain == DefaultCfg
Lax == [Plain EXCEPT !.enf = FALSE]
Loose == [Plain EXCEPT !.strict = FALSE]
Std == [Plain EXCEPT !.ind = "std"]

Cfgs ==
  CASE Alphabet \in {"place", "tags", "ns"} -> <<Plain>>
    [] Alphabet = "ends" -> <<Plain, Lax>>
    [] Alphabet = "content" -> <<Plain>>
    [] Alphabet \in {"pi", "names"} -> <<Plain, Loose, Lax>>
    [] Alphabet \in {"decl", "dtd"} -> <<Plain, Lax>>
    [] Alphabet = "doc" -> <<Plain, Lax, [Plain EXCEPT !.ver = B("1.1"), !.nl = <<13, 10>>], [Plain EXCEPT !.enc = E0],
                             [Plain EXCEPT !.enc = B("bad enc")]>>
    [] Alphabet = "docafter" -> <<Plain, [Std EXCEPT !.nl = <<13, 10>>], [Lax EXCEPT !.ver = B("1.1")]>>
    [] Alphabet = "indent" -> <<[Std EXCEPT !.istr = <<TAB>>, !.nl = <<13, 10>>]>>
    [] Alphabet = "events" -> <<[Plain EXCEPT !.rec = TRUE, !.wrap = "box", !.mark = TRUE], [Std EXCEPT !.rec = TRUE]>>
    [] Alphabet = "layout" -> <<Plain, Std>>
    [] Alphabet = "inline" -> <<Plain, Std>>
    [] Alphabet = "lax" -> <<Lax>>
    [] Alphabet = "past" -> <<[Plain EXCEPT !.rec = TRUE], [Std EXCEPT !.rec = TRUE]>>
    [] Alphabet = "bulk" -> <<Plain, [Std EXCEPT !.rec = TRUE, !.istr = E0]>>

------------------------------------------------------------------------------
Init0 ==
  /\ cf \in 1..Len(Cfgs)
  /\ h = <<>>
  /\ m = Init(Cfgs[cf])
  /\ doc = <<>>
  /\ t = TInit(Cfgs[cf].nl, Cfgs[cf].enc, Cfgs[cf].ver)
  /\ whole = TRUE

(* histories that have a meaning as a whole: no raw strings, validated, no
   layout, no attributes or members outside their parents *)
RECURSIVE Meaningful(_, _)
Meaningful(n, top) ==
  CASE n.k \in {"raw"} -> FALSE
    [] n.k \in {"attr", "dtdattr", "ccontent", "cdcontent"} -> ~top
    [] n.k = "doc" -> ~n.sv /\ n.fv = <<>>
    [] n.k = "pi" -> n.n # <<>>
    [] OTHER -> TRUE

(* an attribute given twice is the caller's error, and is not caught *)
NewAttrs(as) ==
  LET have == IF t.evs = <<>> \/ t.evs[Len(t.evs)].e # "s" THEN <<>> ELSE t.evs[Len(t.evs)].at
  IN  /\ \A i \in 1..Len(as) : \A j \in 1..Len(have) : have[j][1] # FullName(as[i].p, as[i].n)
      /\ Cardinality({as[i] : i \in 1..Len(as)}) = Len(as)

OpMeaningful(mm, op) ==
  CASE op.o \in {"write", "attrs"} /\ op.ns[1].k = "attr" -> mm.stk # <<>> /\ NewAttrs(op.ns)
    [] op.o \in {"start", "write", "attrs"} -> \A i \in 1..Len(op.ns) : Meaningful(op.ns[i], mm.stk = <<>>)
    [] op.o = "block" -> \A i \in 1..Len(op.ns) : Meaningful(op.ns[i], FALSE)
    [] op.o \in {"setenf", "setver", "setnl", "setind", "setistr"} -> FALSE
    [] OTHER -> TRUE

Judged == Plain.enf /\ Cfgs[cf].enf /\ ~HasInd(m)

(* the reader gives back what was written, whenever everything is ended *)
WholeOk(mm, d, tt) ==
  mm.stk = <<>> =>
    LET p == Parse(d) IN
    /\ Assert(p.ok, <<"malformed", d, p.why>>)
    /\ Assert(SameTree(tt, p.evs), <<"tree", d, p.evs, tt.evs>>)

(* with validation off: the same, if it was accepted *)
LaxAgrees(mm, op, m1) ==
  m1.res = "ok" =>
    LET l == Apply([mm EXCEPT !.cfg.enf = FALSE], op)
    IN  op.o = "setenf" \/ (l.res = "ok" /\ l.out = m1.out /\ l.stk = m1.stk /\ l.evs = m1.evs)

(* C08: a structured call is its parts, up to the first error *)
ApplyParts(mm, ops) ==
  FoldLeft(LAMBDA a, op : IF a.res # "ok" THEN a
             ELSE LET r == Do([a EXCEPT !.res = "ok"], op) IN r, Fresh(mm), ops)

PartsAgree(mm, op, m1) ==
  Alphabet = "inline" /\ Expandable(op) =>
    LET p == ApplyParts(mm, Parts(op))
    IN  /\ (p.res = "ok") = (m1.res = "ok")
        /\ p.out = m1.out
        /\ Len(p.stk) = Len(m1.stk)
        /\ m1.res = "ok" => [Core(p) EXCEPT !.last = <<>>] = [Core(m1) EXCEPT !.last = <<>>]

(* C12: what the indenter sees, as a language of its own: every node opens,
   is opened and ends once, in nesting order, and each event comes with the
   one before it *)
Follow(p, e) ==           \* what can be the event before the next one
  IF e.k \in Startable THEN {e}
  ELSE IF e.k = "raw" /\ p = Event(StEnded, "pi", 0)
  THEN {p, Event(StEnded, e.k, 0)}    \* the inside of a processing instruction, or raw content after it
  ELSE {Event(StEnded, e.k, 0)}

EvStep(s, ev) ==          \* s: [ok, last, stk]; stk: kind and state of the open nodes
  LET p == ev[1]
      e == ev[2]
      top == IF s.stk = <<>> THEN [k |-> "none", st |-> StOpened] ELSE s.stk[Len(s.stk)]
      ok == /\ p \in s.last
            /\ CASE e.k \in Startable /\ e.st = StOpen -> top.st = StOpened /\ e.ch = 0
                 [] e.k \in Startable /\ e.st = StOpened -> top = [k |-> e.k, st |-> StOpen]
                 [] e.k \in Startable /\ e.st = StEnded -> top = [k |-> e.k, st |-> StOpened]
                 [] e.k = "attr" -> top.st = StOpen \/ s.stk = <<>>
                 [] e.k = "raw" -> TRUE
                 [] OTHER -> e.st = StOpen /\ e.ch = 0 /\ top.st = StOpened
      stk == CASE e.k \in Startable /\ e.st = StOpen -> Append(s.stk, [k |-> e.k, st |-> StOpen])
               [] e.k \in Startable /\ e.st = StOpened /\ s.stk # <<>> -> [s.stk EXCEPT ![Len(s.stk)].st = StOpened]
               [] e.k \in Startable /\ e.st = StEnded /\ s.stk # <<>> -> SubSeq(s.stk, 1, Len(s.stk) - 1)
               [] OTHER -> s.stk
  IN  [ok |-> s.ok /\ ok, last |-> Follow(p, e), stk |-> stk]

EventsOk(mm, m1) ==
  mm.cfg.rec /\ m1.res = "ok" =>
    LET s0 == [ok |-> TRUE, last |-> {mm.last}, stk |-> [i \in 1..Len(mm.stk) |-> [k |-> mm.stk[i].k, st |-> mm.stk[i].st]]]
        s == FoldLeft(EvStep, s0, m1.evs)
    IN  /\ s.ok
        /\ m1.last \in s.last
        /\ s.stk = [i \in 1..Len(m1.stk) |-> [k |-> m1.stk[i].k, st |-> m1.stk[i].st]]

(* document starts come first: XML allows them nowhere else *)
DocFirst(op, hh) == op.o = "start" /\ op.ns[1].k = "doc" => hh = <<>>

EndAllOp == [o |-> "endallflush", via |-> 0]

(* values are bound by \E over singletons: TLC evaluates those once, and LET
   definitions of an action at every use *)
Step0(i) ==
  \E m1 \in {Apply(m, Ops[i])} :
  LET op == Ops[i]
      clean == m1.res = "ok" \/ (m1.res = "rej" /\ SingleCall(op) /\ m1.out = <<>>)
      \* everything that is still open is ended
      closing == Close01 = 1 /\ m1.res # "fail"
  IN
  \E w1 \in {whole /\ Judged /\ clean /\ OpMeaningful(m, op) /\ DocFirst(op, h)} :
  \E t1 \in {IF w1 /\ m1.res = "ok" THEN TApply(t, op) ELSE t} :
  \E mc \in {IF closing THEN Apply(m1, EndAllOp) ELSE m1} :
      /\ op.o = "endto" => op.d < Len(m.stk)
      /\ Assert(RejectionInert(m, op, m1), <<"rejection", m, op, m1>>)
      /\ Assert(LaxAgrees(m, op, m1), <<"lax", m, op, m1>>)
      /\ Assert(PartsAgree(m, op, m1), <<"parts", m, op, m1, ApplyParts(m, Parts(op))>>)
      /\ Assert(EventsOk(m, m1), <<"events", m, op, m1>>)
      /\ w1 => IF ~closing THEN WholeOk(m1, doc \o m1.out, t1)
               ELSE mc.res = "ok" => WholeOk(mc, doc \o m1.out \o mc.out, TApply(t1, EndAllOp))
      /\ Emit01 = 0 \/ PrintT("@T " \o ToJson(<<cf, h, i, m1.res, Len(m1.stk), m1.out,
                                IF m1.cfg.rec THEN [j \in 1..Len(m1.evs) |->
                                   <<m1.evs[j][1].st, m1.evs[j][1].k, m1.evs[j][1].ch,
                                     m1.evs[j][2].st, m1.evs[j][2].k, m1.evs[j][2].ch>>] ELSE <<>>,
                                IF closing THEN <<mc.res, mc.out>> ELSE <<>>>>))
      /\ m1.res # "fail"
      /\ Len(h) + 1 < MaxOps
      /\ Len(m1.stk) <= MaxOpen
      /\ m' = m1
      /\ h' = Append(h, i)
      /\ doc' = doc \o m1.out
      /\ whole' = w1
      /\ t' = t1
      /\ UNCHANGED cf

Next0 == Len(h) < MaxOps /\ \E i \in 1..Len(Ops) : Step0(i)

Spec0 == Init0 /\ [][Next0]_vars

View == <<cf, Core(m), IF Len(h) <= Memory THEN h ELSE SubSeq(h, Len(h) - Memory + 1, Len(h)), whole>>

ASSUME PrintT("@OPS " \o ToJson(Ops)) /\ PrintT("@CFGS " \o ToJson(Cfgs))

(* invariants of the state itself *)
TypeOk ==
  /\ Len(m.stk) <= MaxOpen
  /\ \A i \in 1..Len(m.stk) : m.stk[i].k \in Startable /\ (i < Len(m.stk) => m.stk[i].st = StOpened)
  /\ Len(m.lv) >= 1
NestingOk ==   \* with validation on from the start, only documented nestings are reachable
  Cfgs[cf].enf => \A i \in 1..Len(m.stk) : (IF i = 1 THEN "none" ELSE m.stk[i - 1].k) \in Allowed(m.stk[i].k)
IndentLevelOk ==   \* the standard indenter's levels are exactly the nesting nodes that were opened
  Cfgs[cf].ind = "std" /\ Alphabet # "layout" => Len(m.lv) = 1 + Cardinality({i \in 1..Len(m.stk) : Nests(m.stk[i].k) /\ m.stk[i].st = StOpened})
=============================================================================
