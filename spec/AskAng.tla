---- MODULE AskAng ----
EXTENDS Ang, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
TInit == l \in 1..Len(Trace) /\ u = <<1, 0>> /\ v = u /\ n = 0 /\ k = 0
TNext == UNCHANGED <<l, vars>>
EmitAsk == LET stp == Trace[l].steps IN
  Emit([j_ \in DOMAIN stp |-> Step(stp[j_].op, stp[j_].a, Query(stp[j_].op, stp[j_].a))])
====
