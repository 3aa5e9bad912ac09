---------------------------- MODULE Orientation ----------------------------
(* Orientation of point triples and of a segment relative to a directed    *)
(* line.  State: a triple of lattice points, changed by relabelling and     *)
(* moving; the orientation must follow the relabelling.                     *)
EXTENDS Lat
CONSTANTS N            \* grid 0..N
VARIABLES a, b, c
vars == <<a, b, c>>
Grid == (0..N) \X (0..N)

Init == a \in Grid /\ b \in Grid /\ c \in Grid
Rotate == a' = b /\ b' = c /\ c' = a
Swap == a' = b /\ b' = a /\ c' = c
Move == \E v \in {<<1, 0>>, <<0, 1>>} :
          /\ {<<a[1] + v[1], a[2] + v[2]>>, <<b[1] + v[1], b[2] + v[2]>>, <<c[1] + v[1], c[2] + v[2]>>} \subseteq Grid
          /\ a' = <<a[1] + v[1], a[2] + v[2]>> /\ b' = <<b[1] + v[1], b[2] + v[2]>> /\ c' = <<c[1] + v[1], c[2] + v[2]>>
Next == Rotate \/ Swap \/ Move
Spec == Init /\ [][Next]_vars

Or == Orient(a, b, c)
(* orientation of the directed segment q0-q1 relative to the line p0->p1:   *)
(* a side if the whole segment lies on the closed side and touches its      *)
(* interior, otherwise (collinear, or crossing) 0                           *)
SegOrient(p0, p1, q0, q1) ==
  LET o == {Orient(p0, p1, q0), Orient(p0, p1, q1)} IN
  IF 1 \in o /\ -1 \in o THEN 0 ELSE IF 1 \in o THEN 1 ELSE IF -1 \in o THEN -1 ELSE 0

(* properties of the specification itself *)
RotateKeeps == [][Rotate => Orient(a', b', c') = Or]_vars
SwapNegates == [][Swap => Orient(a', b', c') = -Or]_vars
MoveKeeps == [][Move => Orient(a', b', c') = Or]_vars
DegenerateZero == (a = b \/ b = c \/ a = c) => Or = 0
ZeroIffCollinear == (Or = 0) <=> (OnSeg(a, b, c) \/ OnSeg(b, a, c) \/ OnSeg(c, a, b))

Query(op, x) ==
  CASE op = "orient" -> LET o == Orient(x[1], x[2], x[3]) IN <<o, o, o, o, o, o, o>>
    [] op = "segorient" -> <<SegOrient(x[1], x[2], x[3], x[4])>>

EmitOrient == Emit(<<Step("orient", <<a, b, c>>, Query("orient", <<a, b, c>>))>>)
EmitSeg == \A d \in {<<0, 0>>, <<N, 0>>, <<1, N>>, <<N, N>>} :
             Emit(<<Step("segorient", <<a, b, c, d>>, Query("segorient", <<a, b, c, d>>))>>)
EmitCases == EmitOrient /\ EmitSeg
=============================================================================
