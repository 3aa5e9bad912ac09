------------------------- MODULE TraceRingLocation -------------------------
EXTENDS RingLocation, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
TInit == l \in 1..Len(Trace) /\ ring = <<>> /\ par = <<>> /\ on = <<>> /\ closed = FALSE
TNext == UNCHANGED <<l, vars>>
EventOK == LET e == Trace[l] IN e.ok /\ e.r = Query(e.op, e.a)
=============================================================================
