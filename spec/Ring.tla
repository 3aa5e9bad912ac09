-------------------------------- MODULE Ring --------------------------------
(* Closed rings of lattice points, given with the first point repeated.     *)
EXTENDS Lat

Cl(v) == IF Len(v) = 0 THEN v ELSE Append(v, v[1])          \* close a vertex list
Open(r) == SubSeq(r, 1, Len(r) - 1)
RECURSIVE NoRep(_)
NoRep(s) == IF Len(s) < 2 THEN s
            ELSE IF s[1] = s[2] THEN NoRep(Tail(s)) ELSE <<s[1]>> \o NoRep(Tail(s))
Rot(v, k) == [i \in DOMAIN v |-> v[((i - 1 + k) % Len(v)) + 1]]   \* open vertex list, start at 1+k

(* vertices without consecutive repeats, cyclically *)
Distinct(r) == LET s == NoRep(r) IN IF Len(s) = 0 THEN s ELSE SubSeq(s, 1, Len(s) - 1)

(* twice the area enclosed, counted positive where traversed counter-clockwise *)
RECURSIVE Shoe(_, _)
Shoe(r, i) == IF i >= Len(r) THEN 0 ELSE r[i][1] * r[i + 1][2] - r[i + 1][1] * r[i][2] + Shoe(r, i + 1)
Area2(r) == Shoe(r, 1)

SegsMeet(a, b, c, d) ==
  LET o1 == Orient(a, b, c)  o2 == Orient(a, b, d)  o3 == Orient(c, d, a)  o4 == Orient(c, d, b) IN
  \/ o1 * o2 < 0 /\ o3 * o4 < 0
  \/ OnSeg(c, a, b) \/ OnSeg(d, a, b) \/ OnSeg(a, c, d) \/ OnSeg(b, c, d)

(* v: open vertex list without repeats; a simple closed curve *)
SimpleV(v) ==
  LET n == Len(v)  P(i) == v[((i - 1) % n) + 1] IN
  /\ n >= 3
  /\ \A i \in 1..n : ~(Orient(P(i), P(i + 1), P(i + 2)) = 0 /\ Dot(P(i + 1), P(i), P(i + 2)) > 0)  \* no spike
  /\ \A i, j \in 1..n : i + 1 < j /\ ~(i = 1 /\ j = n) => ~SegsMeet(P(i), P(i + 1), P(j), P(j + 1))
  /\ \A i, j \in 1..n : i # j => v[i] # v[j]
Simple(r) == SimpleV(Distinct(r))

CCW(r) == Area2(r) > 0
Collinear(r) == \A i, j, k \in DOMAIN r : Cross(r[i], r[j], r[k]) = 0
=============================================================================
