---------------------------- MODULE AskRingOrient ----------------------------
EXTENDS RingOrient, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
TInit == l \in 1..Len(Trace) /\ v = <<>> /\ closed = FALSE
TNext == UNCHANGED <<l, vars>>
EmitAsk == LET s == Trace[l].steps IN
  Emit([i \in DOMAIN s |-> Step(s[i].op, <<s[i].a[1], Kind(s[i].a[1])>>, Query(s[i].op, s[i].a))])
=============================================================================
