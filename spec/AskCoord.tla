---- MODULE AskCoord ----
EXTENDS Coord, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
TInit == l \in 1..Len(Trace) /\ mode = "ask" /\ hist = <<>> /\ co = Blank /\ other = Blank
TNext == UNCHANGED <<l, vars>>
EmitAsk == LET stp == Trace[l].steps IN
  IF stp[1].op = "mut" THEN Emit(Hist(Blank, [i \in DOMAIN stp |-> stp[i].a], 1))
  ELSE Emit([j_ \in DOMAIN stp |-> Step(stp[j_].op, stp[j_].a, Query(stp[j_].op, stp[j_].a))])
====
