---- MODULE AskVec ----
EXTENDS Vec, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
TInit == l \in 1..Len(Trace) /\ hist = <<>> /\ reg = <<0, 0>> /\ sys = None
TNext == UNCHANGED <<l, vars>>
EmitAsk == LET stp == Trace[l].steps IN
  Emit(IF stp[1].op = "up" THEN Hist(<<0, 0>>, [i \in DOMAIN stp |-> stp[i].a], 1)
       ELSE [j_ \in DOMAIN stp |-> Step(stp[j_].op, stp[j_].a, Query(stp[j_].op, stp[j_].a))])
====
