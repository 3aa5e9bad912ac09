---- MODULE AskCArr ----
EXTENDS CArr, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
TInit == l \in 1..Len(Trace) /\ t = <<>> /\ u = <<>>
TNext == UNCHANGED <<l, vars>>
EmitAsk == LET stp == Trace[l].steps IN
  Emit([j_ \in DOMAIN stp |-> Step(stp[j_].op, stp[j_].a, Query(stp[j_].op, stp[j_].a))])
====
