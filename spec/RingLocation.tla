---------------------------- MODULE RingLocation ----------------------------
(* Locating points with respect to a ring.  A ring is drawn vertex by       *)
(* vertex; every query point carries the crossing parity and the on-segment *)
(* flag an incremental ray-crossing counter would hold.  At closing time    *)
(* the counter must agree with the definition of location, which shares     *)
(* nothing with the counting rule: a ray of generic slope that meets no     *)
(* lattice point, so that every crossing is proper.                         *)
EXTENDS Lat
CONSTANTS N,           \* vertices on the even points of 0..2N
          K            \* at most K vertices
VARIABLES ring, par, on, closed
vars == <<ring, par, on, closed>>

Lo == -1
Hi == 2 * N + 1
Q == (Lo..Hi) \X (Lo..Hi)
Verts == {<<2 * i, 2 * j>> : i \in 0..N, j \in 0..N}

INTERIOR == 0
BOUNDARY == 1
EXTERIOR == 2

(* ------------------------------ definition ------------------------------ *)
EdgesOf(r) == {<<r[i], r[i + 1]>> : i \in 1..(Len(r) - 1)}
OnPath(q, r) == \E i \in 1..(Len(r) - 1) : OnSeg(q, r[i], r[i + 1])
(* side of point v with respect to the directed line through q, slope 1/W   *)
W == 100003
SideOf(q, v) == Sgn(W * (v[2] - q[2]) - (v[1] - q[1]))
CrossesGeneric(q, a, b) ==
  LET sa == SideOf(q, a)  sb == SideOf(q, b) IN
  /\ sa # sb
  /\ IF sb > sa THEN Cross(a, b, q) > 0 ELSE Cross(a, b, q) < 0
Crossings(q, r) == Cardinality({i \in 1..(Len(r) - 1) : CrossesGeneric(q, r[i], r[i + 1])})
Locate(q, r) == IF OnPath(q, r) \/ (Len(r) > 0 /\ q = r[1] /\ Len(r) > 1) THEN BOUNDARY
                ELSE IF Crossings(q, r) % 2 = 1 THEN INTERIOR ELSE EXTERIOR

(* ------------------------- the incremental counter ---------------------- *)
(* a segment crosses the horizontal ray if it spans the ray's height        *)
(* half-openly and the query point is on its left (upward sense)            *)
Spans(q, a, b) == (a[2] > q[2] /\ b[2] <= q[2]) \/ (b[2] > q[2] /\ a[2] <= q[2])
Counts(q, a, b) == Spans(q, a, b) /\ (IF b[2] > a[2] THEN Orient(a, b, q) = 1 ELSE Orient(a, b, q) = -1)

Init == ring = <<>> /\ par = [q \in Q |-> 0] /\ on = [q \in Q |-> FALSE] /\ closed = FALSE
Feed(a, b) ==
  /\ par' = [q \in Q |-> IF Counts(q, a, b) THEN 1 - par[q] ELSE par[q]]
  /\ on' = [q \in Q |-> on[q] \/ OnSeg(q, a, b)]
AddVertex(v) ==
  /\ ~closed /\ Len(ring) < K
  /\ ring' = Append(ring, v) /\ closed' = FALSE
  /\ IF ring = <<>> THEN UNCHANGED <<par, on>> ELSE Feed(ring[Len(ring)], v)
Close ==
  /\ ~closed /\ Len(ring) >= 2
  /\ ring' = Append(ring, ring[1]) /\ closed' = TRUE
  /\ Feed(ring[Len(ring)], ring[1])
Next == Close \/ \E v \in Verts : AddVertex(v)
Spec == Init /\ [][Next]_vars

Counted(q) == IF on[q] THEN BOUNDARY ELSE IF par[q] = 1 THEN INTERIOR ELSE EXTERIOR

(* ------------------------------ properties ------------------------------ *)
CounterRight == closed => \A q \in Q : Counted(q) = Locate(q, ring)
OnRight == \A q \in Q : on[q] <=> OnPath(q, ring)
(* location does not depend on direction or starting vertex *)
Rotated(r) == Append(Tail(r), r[2])
Canonical == closed => \A q \in Q : /\ Locate(q, Rev(ring)) = Locate(q, ring)
                                    /\ Locate(q, Rotated(ring)) = Locate(q, ring)
OutsideIsExterior == closed => \A q \in Q : q[1] \in {Lo, Hi} \/ q[2] \in {Lo, Hi} => Counted(q) = EXTERIOR

(* ------------------------------ conformance ----------------------------- *)
QSeq == [i \in 1..((Hi - Lo + 1) * (Hi - Lo + 1)) |->
           <<Lo + ((i - 1) % (Hi - Lo + 1)), Lo + ((i - 1) \div (Hi - Lo + 1))>>]
EmitCases ==
  IF closed
  THEN Emit(<<Step("locate", <<ring, Lo, Hi>>, [i \in DOMAIN QSeq |-> Counted(QSeq[i])])>>)
  ELSE Len(ring) \in 1..(K - 1) => Emit(<<Step("online", <<ring, Lo, Hi>>, [i \in DOMAIN QSeq |-> Bit(on[QSeq[i]])])>>)

(* several rings at once: a polygonal geometry with shells and holes *)
RECURSIVE SumCross(_, _, _)
SumCross(q, rs, i) == IF i > Len(rs) THEN 0 ELSE Crossings(q, rs[i]) + SumCross(q, rs, i + 1)
LocateN(q, rs) == IF \E i \in DOMAIN rs : OnPath(q, rs[i]) THEN BOUNDARY
                  ELSE IF SumCross(q, rs, 1) % 2 = 1 THEN INTERIOR ELSE EXTERIOR

Query(op, x) ==
  CASE op = "locate1" -> Locate(x[2], x[1])
    [] op = "locaten" -> LocateN(x[2], x[1])
    [] op = "online1" -> Bit(OnPath(x[2], x[1]))
    [] op = "onseg" -> Bit(OnSeg(x[3], x[1], x[2]))
=============================================================================
