---- MODULE AskOct ----
EXTENDS Oct, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
TInit == l \in 1..Len(Trace) /\ mode = "ask" /\ hist = <<>> /\ oct = Null /\ seen = {} /\ pa = <<>> /\ pb = <<>>
TNext == UNCHANGED <<l, vars>>
EmitAsk == LET stp == Trace[l].steps IN
  IF stp[1].op = "mut" THEN Emit(Hist(Null, [i \in DOMAIN stp |-> stp[i].a], 1, FALSE))
  ELSE Emit([j_ \in DOMAIN stp |-> Step(stp[j_].op, stp[j_].a, Query(stp[j_].op, stp[j_].a))])
====
