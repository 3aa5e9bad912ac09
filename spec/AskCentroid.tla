---- MODULE AskCentroid ----
EXTENDS Centroid, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
TInit == l \in 1..Len(Trace) /\ Init
TNext == UNCHANGED <<l, vars>>
EmitAsk == LET s == Trace[l].steps IN
  IF s[1].op = "new" THEN Emit(Steps([i \in 1..(Len(s) - 1) |-> s[i + 1].a]))
  ELSE IF s[1].op = "snap" THEN Emit(<<Step("snap", s[1].a, SnapOf(s[1].a[1], s[1].a[2]))>>)
  ELSE Emit(<<Step(s[1].op, s[1].a, Query(s[1].op, s[1].a))>>)
====
