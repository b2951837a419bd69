------------------------------ MODULE TraceSink ------------------------------
(***************************************************************************)
(* C09 and C10.  Every line is a history of calls: base is what each call  *)
(* did (error, depth, bytes) with a flush after every call, ref the whole  *)
(* stream of bytes; runs are the same calls again with other buffer sizes, *)
(* flushes or failing sinks.  Every recorded step must be a step of Sink.  *)
(* A step's at is the base call it repeats, or 0 for a flush that was      *)
(* added.  Histories end with raw strings and flushes.                     *)
(***************************************************************************)
EXTENDS Sink, Chars, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tr, l, stop
T == Traces[tr]

Utf8Of(c) ==
  IF c < 0 THEN <<-c>>
  ELSE IF c < 128 THEN <<c>>
  ELSE IF c < 2048 THEN <<192 + (c \div 64), 128 + (c % 64)>>
  ELSE IF c < 65536 THEN <<224 + (c \div 4096), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
  ELSE <<240 + (c \div 262144), 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
Utf8(s) == Flat([i \in 1..Len(s) |-> Utf8Of(s[i])])

(* calls that may find nothing left to do once earlier calls have failed *)
Idle(o) == o \in {"endall", "next"}

StepOf(st) ==
  LET b == IF st.at = 0 THEN [o |-> "flush", err |-> FALSE, n |-> 0, w |-> FALSE] ELSE T.base[st.at]
  IN  [n |-> b.n, err |-> st.err, own |-> st.own, hit |-> st.hit, acc |-> st.acc,
       refused |-> b.err, flush |-> b.o \in {"flush", "endallflush"},
       must |-> b.o \in {"flush", "raw"}, may |-> Idle(b.o), writes |-> b.w]

(* what may be kept back: no more than the buffer that was asked for (an
   encoder keeps bytes of its own) *)
Lag(x) == IF T.enc \/ x.buf <= 0 THEN Unlimited ELSE x.buf

RECURSIVE Judge(_, _, _)
Judge(x, s, i) ==     \* the first step that is not allowed, or 0
  IF i > Len(x.st) THEN 0
  ELSE LET st == x.st[i]
           e == StepOf(st)
       IN  IF st.pan \/ ~SinkStepOk(s, e, x.limit, x.whole, Lag(x)) THEN i
           ELSE IF ~s.broken /\ ~st.hit /\ st.at # 0 /\ st.dep # T.base[st.at].dep THEN i
           ELSE Judge(x, SinkAfter(s, e), i + 1)

Verdict(x) ==
  LET bad == Judge(x, SinkInit, 1) IN
  IF bad # 0 THEN [v |-> "step", i |-> bad]
  ELSE IF ~(Len(x.got) <= Len(T.ref) /\ x.got = SubSeq(T.ref, 1, Len(x.got))) THEN [v |-> "prefix", i |-> 0]
  ELSE [v |-> "", i |-> 0]

TraceInit == tr \in 1..Len(Traces) /\ l = 0 /\ stop = ""

Report(v, rest) == PrintT("@MISMATCH " \o ToJson([id |-> T.id, l |-> l, kind |-> v] @@ rest))

(* the reference itself: the calls' bytes, one after the other *)
Reference ==
  /\ l = 0 /\ stop = ""
  /\ LET ok == T.enc \/ (Utf8(T.out) = T.ref /\ FoldLeft(LAMBDA a, b : a + b.n, 0, T.base) = Len(T.ref))
     IN  /\ ~ok => Report("driver", [i |-> 0, buf |-> 0, limit |-> 0, mode |-> "", step |-> <<>>])
         /\ stop' = IF ok THEN "" ELSE "bad"
  /\ l' = 1 /\ UNCHANGED tr

Consume ==
  /\ l > 0 /\ stop = "" /\ l <= Len(T.runs)
  /\ \E r \in {T.runs[l]} : \E v \in {Verdict(r)} :
         /\ stop' = IF v.v # "" THEN "bad" ELSE ""
         /\ v.v # "" => Report(v.v, [i |-> v.i, buf |-> r.buf, limit |-> r.limit, mode |-> r.mode,
                                     step |-> IF v.i = 0 THEN <<>> ELSE <<r.st[v.i]>>])
  /\ l' = l + 1 /\ UNCHANGED tr

Finish ==
  /\ stop # "done" /\ IF stop # "" THEN TRUE ELSE l > Len(T.runs)
  /\ PrintT("@DONE " \o ToString(T.id) \o " " \o ToString(l - 1) \o " " \o stop \o " 0")
  /\ stop' = "done" /\ UNCHANGED <<tr, l>>

TraceNext == Reference \/ Consume \/ Finish
TraceSpec == TraceInit /\ [][TraceNext]_<<tr, l, stop>>
=============================================================================
