-------------------------- MODULE TraceOrientation --------------------------
EXTENDS Orientation, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
TInit == l \in 1..Len(Trace) /\ a = <<0, 0>> /\ b = <<0, 0>> /\ c = <<0, 0>>
TNext == UNCHANGED <<l, a, b, c>>
EventOK == LET e == Trace[l] IN e.ok /\ e.r = Query(e.op, e.a)
=============================================================================
