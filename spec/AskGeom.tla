---- MODULE AskGeom ----
EXTENDS Geom, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
TInit == l \in 1..Len(Trace) /\ orig = <<>> /\ hist = <<>> /\ g = <<>>
TNext == UNCHANGED <<l, vars>>
EmitAsk == LET stp == Trace[l].steps IN Behave(stp[1].a[1], [i \in 1..(Len(stp) - 1) |-> stp[i + 1].op])
====
