---- MODULE AskWide ----
EXTENDS Wide, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
TInit == l \in 1..Len(Trace) /\ pts = <<>> /\ hist = <<>> /\ reg = <<>>
TNext == UNCHANGED <<l, wvars>>
EmitAsk == LET stp == Trace[l].steps IN
  Emit([j_ \in DOMAIN stp |-> WS(stp[j_].op, stp[j_].a)])
====
