-------------------------------- MODULE Lat --------------------------------
(* Exact geometry on the integer lattice.  A point is <<x, y>>.             *)
(* Every notion is given by its geometric definition, not by the algorithm  *)
(* the implementation uses for it.                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

Abs(n) == IF n < 0 THEN -n ELSE n
Sgn(n) == IF n < 0 THEN -1 ELSE IF n > 0 THEN 1 ELSE 0
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Bit(b) == IF b THEN 1 ELSE 0

RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)

RECURSIVE SumTo(_, _)
SumTo(f(_), n) == IF n = 0 THEN 0 ELSE f(n) + SumTo(f, n - 1)

RECURSIVE SetMin(_)
SetMin(S) == CHOOSE x \in S : \A y \in S : x <= y
RECURSIVE SetMax(_)
SetMax(S) == CHOOSE x \in S : \A y \in S : x >= y

Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]

(* twice the signed area of the triangle p q r; positive: r left of p->q *)
Cross(p, q, r) == (q[1] - p[1]) * (r[2] - p[2]) - (q[2] - p[2]) * (r[1] - p[1])
Orient(p, q, r) == Sgn(Cross(p, q, r))
Dot(p, q, r) == (q[1] - p[1]) * (r[1] - p[1]) + (q[2] - p[2]) * (r[2] - p[2])
Dist2(p, q) == (q[1] - p[1]) * (q[1] - p[1]) + (q[2] - p[2]) * (q[2] - p[2])

Between(x, a, b) == Min2(a, b) <= x /\ x <= Max2(a, b)
InBox(p, a, b) == Between(p[1], a[1], b[1]) /\ Between(p[2], a[2], b[2])
OnSeg(p, a, b) == Cross(a, b, p) = 0 /\ InBox(p, a, b)

(* lexicographic order of points *)
LexLess(p, q) == p[1] < q[1] \/ (p[1] = q[1] /\ p[2] < q[2])
LexMin(p, q) == IF LexLess(q, p) THEN q ELSE p
LexMax(p, q) == IF LexLess(q, p) THEN p ELSE q

(* one conformance case: a behaviour of steps <<op, args, expected>> *)
Emit(steps) == PrintT(ToJson(steps))
Step(op, args, res) == <<op, args, res>>
=============================================================================
