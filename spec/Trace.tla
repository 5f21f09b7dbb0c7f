-------------------------------- MODULE Trace -------------------------------
(* Checks executions recorded from the implementation against Engine: every  *)
(* recorded event must be the event of the specification's next step, and    *)
(* the outcome of every parse must be the specified one.                     *)
EXTENDS Props, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES tid, l

T == Traces[tid]

-----------------------------------------------------------------------------
SameText(want, got) == want = AnyText \/ want = got

RECURSIVE SameSummary(_, _)
SameSummary(want, got) ==
  /\ want.t = got.t
  /\ want.n = got.n
  /\ want.s = got.s
  /\ SameText(want.m, got.m)
  /\ Len(want.p) = Len(got.p)
  /\ \A k \in 1..Len(want.p) : SameSummary(want.p[k], got.p[k])

SameEvent(want, got) ==
  /\ want.e = got.e /\ want.i = got.i /\ want.a = got.a /\ want.b = got.b
  /\ SameSummary(want.r, got.r)

SameAttributes(want, got) ==
  /\ {x[1] : x \in want} = {got[k][1] : k \in 1..Len(got)}
  /\ \A x \in want : \E k \in 1..Len(got) : got[k][1] = x[1] /\ SameText(x[2], got[k][2])

SameToken(want, got) ==
  /\ want.n = got.n /\ want.r = got.r
  /\ SameText(want.v, got.v)
  /\ want.c = got.c /\ want.m = got.m
  /\ SameAttributes(want.a, got.a)

SameOutcome(want, got) ==
  /\ want.t = got.t /\ want.n = got.n
  /\ SameText(want.m, got.m)
  /\ Len(want.tree) = Len(got.tree)
  /\ \A k \in 1..Len(want.tree) : SameToken(want.tree[k], got.tree[k])
  /\ Len(want.vars) = Len(got.vars)
  /\ \A k \in 1..Len(want.vars) : SameSummary(want.vars[k], got.vars[k])

-----------------------------------------------------------------------------
Eventful == ctl.k \in {"call", "ret", "hook"}

\* A crash leaves no events: then only whether the specification has an answer matters
Blind == T.t = "crash"

Recorded == Blind \/ (l <= Len(T.ev) /\ SameEvent(Event, T.ev[l]))

TraceInit == \E k \in 1..Len(Traces) : tid = k /\ InitCase(Traces[k]) /\ l = 1

Over == ctl.k \in {"reported"}

Report(verdict, detail) ==
  /\ PrintT("@@" \o ToJson(<<verdict, T.id, l, step, ToString(detail)>>))
  /\ ctl' = [ctl EXCEPT !.k = "reported"]
  /\ UNCHANGED <<cas, gr, run, stk, heap, scp, outs, hks, step, tid, l>>

OutcomesMatch ==
  /\ T.t = "done"
  /\ l = Len(T.ev) + 1
  /\ Len(T.outs) = Len(outs)
  /\ \A k \in 1..Len(outs) : SameOutcome(outs[k], T.outs[k])

BadOutcome ==
  IF T.t # "done" \/ l # Len(T.ev) + 1 \/ Len(T.outs) # Len(outs) THEN <<"ended as", T.t>>
  ELSE LET k == CHOOSE k \in 1..Len(outs) : ~SameOutcome(outs[k], T.outs[k])
       IN <<"expected", outs[k], "recorded", T.outs[k]>>

TraceNext ==
  \/ Eventful /\ Recorded /\ Next /\ l' = l + 1 /\ UNCHANGED tid
  \/ Eventful /\ ~Recorded /\ Report("REJECT", <<"expected", Event, "recorded", IF l <= Len(T.ev) THEN T.ev[l] ELSE T.t>>)
  \/ ctl.k = "start" /\ Next /\ UNCHANGED <<tid, l>>
  \/ ctl.k = "undef" /\ Report("UNDEF", "")
  \/ ctl.k = "done" /\ (IF OutcomesMatch THEN Report("ACCEPT", "") ELSE Report("REJECT", BadOutcome))

TraceView == <<tid, l, step, ctl.k>>
=============================================================================
