---- MODULE AskMeasure ----
EXTENDS Measure, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
TInit == l \in 1..Len(Trace) /\ v = <<>> /\ geo = <<>> /\ twice = 0 /\ segs = 0 /\ phase = "ask"
TNext == UNCHANGED <<l, vars>>
EmitAsk == LET s == Trace[l].steps IN
  Emit([i \in DOMAIN s |-> Step(s[i].op, s[i].a, Query(s[i].op, s[i].a))])
====
