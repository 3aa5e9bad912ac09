---- MODULE AskDd ----
EXTENDS Dd, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
TInit == l \in 1..Len(Trace) /\ hist = <<>> /\ reg = <<>>
TNext == UNCHANGED <<l, vars>>
EmitAsk == LET stp == Trace[l].steps IN
  Emit(IF stp[1].op = "up" THEN Hist(<<>>, [i \in DOMAIN stp |-> stp[i].a], 1)
       ELSE [j_ \in DOMAIN stp |-> Step(stp[j_].op, stp[j_].a, Query(stp[j_].op, stp[j_].a))])
====
