---- MODULE AskEnv ----
EXTENDS Env, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
TInit == l \in 1..Len(Trace) /\ mode = "ask" /\ hist = <<>> /\ env = Null /\ other = Null
TNext == UNCHANGED <<l, vars>>
EmitAsk == LET stp == Trace[l].steps IN
  IF stp[1].op = "mut" THEN Emit(Hist(Null, [i \in DOMAIN stp |-> stp[i].a], 1))
  ELSE Emit([j_ \in DOMAIN stp |-> Step(stp[j_].op, stp[j_].a, Query(stp[j_].op, stp[j_].a))])
====
