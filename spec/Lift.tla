-------------------------------- MODULE Lift --------------------------------
(* Heights of the points two segments meet in.  The segments stay in place;  *)
(* heights are put on and taken off their four ends.                         *)
EXTENDS SegInt
CONSTANTS HS                \* number of heights an end can carry
VARIABLES h                 \* heights of p1, p2, q1, q2; GONE when there is none
lvars == <<p1, p2, q1, q2, h>>
GONE == -99
Level(i) == (i - 1) * (i + 1)        \* 0, 3, 8, ..

(* a height is <<n, d>> with d > 0, or GONE *)
Has(z) == z # <<GONE, 1>>
Whole(z) == <<z, 1>>
(* linear along a segment with end heights za, zb, at the fraction n / d; a   *)
(* missing end is ignored                                                    *)
Along(za, zb, n, d) ==
  IF za = GONE THEN Whole(zb) ELSE IF zb = GONE \/ za = zb THEN Whole(za)
  ELSE LET s == Sgn(d) IN <<s * (za * d + (zb - za) * n), s * d>>
(* a, b # a: fraction at which the lattice point p lies on the segment        *)
At(p, a, b, za, zb) ==
  IF a[1] # b[1] THEN Along(za, zb, p[1] - a[1], b[1] - a[1]) ELSE Along(za, zb, p[2] - a[2], b[2] - a[2])
Mean(z, w) == IF ~Has(z) THEN w ELSE IF ~Has(w) THEN z ELSE <<z[1] * w[2] + w[1] * z[2], 2 * z[2] * w[2]>>
(* the mean of two heights over the same denominator                          *)
First(z, w) == IF z = GONE THEN w ELSE z

(* an end e (height ze) of one segment on the other segment a b *)
EndOn(e, ze, a, b, za, zb) == IF ze # GONE THEN Whole(ze) ELSE At(e, a, b, za, zb)

(* the set of admissible heights at the meeting point x *)
Heights(x, a, b, c, d, z) ==
  LET dd == Den(a, b, c, d)  m == Meet(a, b, c, d)
      p == <<x[1] \div x[3], x[2] \div x[3]>> IN
  IF m.proper THEN {LET u == Along(z[1], z[2], NumT(a, b, c, d), dd)
                        v == Along(z[3], z[4], NumU(a, b, c, d), dd) IN
                    IF Has(u) /\ Has(v) /\ u[2] = v[2] THEN <<u[1] + v[1], 2 * u[2]>> ELSE Mean(u, v)}
  ELSE IF dd # 0 THEN
    {IF p = a /\ p = c THEN Whole(First(z[1], z[3])) ELSE IF p = a /\ p = d THEN Whole(First(z[1], z[4]))
     ELSE IF p = b /\ p = c THEN Whole(First(z[2], z[3])) ELSE IF p = b /\ p = d THEN Whole(First(z[2], z[4]))
     ELSE IF p = c THEN EndOn(c, z[3], a, b, z[1], z[2]) ELSE IF p = d THEN EndOn(d, z[4], a, b, z[1], z[2])
     ELSE IF p = a THEN EndOn(a, z[1], c, d, z[3], z[4]) ELSE EndOn(b, z[2], c, d, z[3], z[4])}
  \* along one line: an end of one segment on the other; where two ends coincide either may serve
  ELSE (IF p = c THEN {EndOn(c, z[3], a, b, z[1], z[2])} ELSE {}) \cup
       (IF p = d THEN {EndOn(d, z[4], a, b, z[1], z[2])} ELSE {}) \cup
       (IF p = a THEN {EndOn(a, z[1], c, d, z[3], z[4])} ELSE {}) \cup
       (IF p = b THEN {EndOn(b, z[2], c, d, z[3], z[4])} ELSE {})

LInit == /\ p1 = <<0, 0>> /\ p2 \in Grid /\ q1 \in Grid /\ q2 \in Grid /\ p1 # p2 /\ q1 # q2
         /\ Meet(p1, p2, q1, q2).kind # NONE /\ h = [i \in 1..4 |-> GONE]
Put(i, v) == h' = [h EXCEPT ![i] = v] /\ h[i] # v /\ UNCHANGED <<p1, p2, q1, q2>>
LNext == \E i \in 1..4, v \in {GONE} \cup {Level(j) : j \in 1..HS} : Put(i, v)
LSpec == LInit /\ [][LNext]_lvars

(* ------------------------------ properties ------------------------------ *)
Pts == Meet(p1, p2, q1, q2).pts
Here(x) == Heights(x, p1, p2, q1, q2, h)
Present == {h[i] : i \in 1..4} \ {GONE}
(* no height out of nothing, and never beyond the heights present *)
Within == \A x \in Pts : \A z \in Here(x) :
  IF Present = {} THEN ~Has(z)
  ELSE Has(z) => SetMin(Present) * z[2] <= z[1] /\ z[1] <= SetMax(Present) * z[2]
(* with all heights present only the way round of crossing segments at a     *)
(* shared end matters                                                        *)
EqZ(z, w) == z[1] * w[2] = w[1] * z[2]
SameSet(A, B) == (\A z \in A : \E w \in B : EqZ(z, w)) /\ (\A w \in B : \E z \in A : EqZ(z, w))
FlipSame == \A x \in Pts : SameSet(Here(x), Heights(x, p2, p1, q1, q2, <<h[2], h[1], h[3], h[4]>>))
SwapSame == \A x \in Pts : LET p == <<x[1] \div x[3], x[2] \div x[3]>> IN
  (Den(p1, p2, q1, q2) = 0 \/ Meet(p1, p2, q1, q2).proper \/ ~(p \in {p1, p2} /\ p \in {q1, q2}))
  => SameSet(Here(x), Heights(x, q1, q2, p1, p2, <<h[3], h[4], h[1], h[2]>>))
(* lifting all ends lifts the meeting *)
LiftAll == \A x \in Pts : SameSet({IF Has(z) THEN <<z[1] + 7 * z[2], z[2]>> ELSE z : z \in Here(x)},
   Heights(x, p1, p2, q1, q2, [i \in 1..4 |-> IF h[i] = GONE THEN GONE ELSE h[i] + 7]))
(* raising one end never lowers the meeting *)
Raise == [][(\E i \in 1..4 : h[i] # GONE /\ h'[i] > h[i] /\ h' = [h EXCEPT ![i] = h'[i]]) =>
  \A x \in Pts : Cardinality(Here(x)) = 1 /\ Cardinality(Heights(x, p1, p2, q1, q2, h')) = 1 =>
    LET z == CHOOSE z \in Here(x) : TRUE  w == CHOOSE w \in Heights(x, p1, p2, q1, q2, h') : TRUE IN
    Has(z) => z[1] * w[2] <= w[1] * z[2]]_lvars

(* ------------------------------ conformance ----------------------------- *)
(* a copied or missing height is exact, an interpolated one rational *)
OutZ(z) == IF z[2] = 1 THEN z[1] ELSE <<"q", z[1], z[2]>>
RECURSIVE OutSet(_)
OutSet(S) == IF S = {} THEN <<>> ELSE LET z == CHOOSE z \in S : TRUE IN <<OutZ(z)>> \o OutSet(S \ {z})
RECURSIVE OutPts(_, _, _, _, _, _)
OutPts(S, a, b, c, d, z) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN
  <<<<IF Meet(a, b, c, d).proper THEN "*" ELSE <<x[1] \div x[3], x[2] \div x[3]>>, <<"any">> \o OutSet(Heights(x, a, b, c, d, z))>>>>
  \o OutPts(S \ {x}, a, b, c, d, z)
Query(op, a) == LET m == Meet(a[1], a[2], a[3], a[4]) IN
  <<m.kind, <<"set">> \o OutPts(m.pts, a[1], a[2], a[3], a[4], SubSeq(a, 5, 8))>>
EmitLift == LET a == <<p1, p2, q1, q2>> \o h IN Emit(<<Step("lift", a, Query("lift", a))>>)
=============================================================================
