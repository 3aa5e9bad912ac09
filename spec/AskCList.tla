---- MODULE AskCList ----
EXTENDS CList, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
TInit == l \in 1..Len(Trace) /\ hist = <<>> /\ lst = <<>>
TNext == UNCHANGED <<l, vars>>
EmitAsk == LET stp == Trace[l].steps IN Emit(Hist(<<>>, [i \in DOMAIN stp |-> stp[i].a], 1))
====
