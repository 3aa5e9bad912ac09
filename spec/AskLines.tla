---- MODULE AskLines ----
EXTENDS Lines, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
TInit == l \in 1..Len(Trace) /\ p1 = <<0, 0>> /\ p2 = <<1, 0>> /\ q1 = <<0, 0>> /\ q2 = <<0, 1>>
TNext == UNCHANGED <<l, vars>>
EmitAsk == LET stp == Trace[l].steps IN
  Emit([j_ \in DOMAIN stp |-> Step(stp[j_].op, stp[j_].a, Query(stp[j_].op, stp[j_].a))])
====
