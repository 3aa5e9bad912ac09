---- MODULE AskCSeq ----
EXTENDS CSeq, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
TInit == l \in 1..Len(Trace) /\ lay = "XY" /\ orig = <<>> /\ hist = <<>> /\ sq = <<>>
TNext == UNCHANGED <<l, vars>>
EmitAsk == LET stp == Trace[l].steps IN
  IF stp[1].op = "init" THEN Behave(stp[1].a[1], stp[1].a[2], [i \in 1..(Len(stp) - 1) |-> stp[i + 1].a])
  ELSE Emit([j_ \in DOMAIN stp |-> Step(stp[j_].op, stp[j_].a, Query(stp[j_].op, stp[j_].a))])
====
