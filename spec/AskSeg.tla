---- MODULE AskSeg ----
EXTENDS Seg, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
TInit == l \in 1..Len(Trace) /\ p = <<0, 0, 0>> /\ q = p /\ r = p /\ s = p /\ a = <<0, 0>> /\ b = a /\ c = a /\ d = a
TNext == UNCHANGED <<l, vars, svars>>
EmitAsk == LET stp == Trace[l].steps IN
  Emit([j_ \in DOMAIN stp |-> Step(stp[j_].op, stp[j_].a, SQuery(stp[j_].op, stp[j_].a))])
====
