---- MODULE AskText ----
EXTENDS Text, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
TInit == l \in 1..Len(Trace) /\ first = <<"seq", <<>>>> /\ hist = <<>> /\ obj = <<"seq", <<>>>>
TNext == UNCHANGED <<l, vars>>
EmitAsk == LET stp == Trace[l].steps IN
  Emit(<<Step("make", stp[1].a, Obs(stp[1].a))>> \o Hist(stp[1].a, [i \in 1..(Len(stp) - 1) |-> stp[i + 1].a], 1))
====
