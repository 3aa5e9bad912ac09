----------------------------- MODULE TraceSegInt -----------------------------
EXTENDS SegInt, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
TInit == l \in 1..Len(Trace) /\ p1 = 0 /\ p2 = 0 /\ q1 = 0 /\ q2 = 0
TNext == UNCHANGED <<l, vars>>
EventOK == LET e == Trace[l] IN e.ok /\ EventRight(e)
=============================================================================
