------------------------------- MODULE Lines -------------------------------
(* Where infinite lines, and a line and a segment, meet.  Points slide along *)
(* their own lines, lines are turned round and exchanged.                    *)
EXTENDS Lat
CONSTANTS N
VARIABLES p1, p2, q1, q2
vars == <<p1, p2, q1, q2>>
Grid == (0..N) \X (0..N)

Den(a, b, c, d) == (b[1] - a[1]) * (d[2] - c[2]) - (b[2] - a[2]) * (d[1] - c[1])
NumT(a, b, c, d) == (c[1] - a[1]) * (d[2] - c[2]) - (c[2] - a[2]) * (d[1] - c[1])
(* <<x, y, n>> for the point <<x / n, y / n>>, n > 0; <<>> when parallel or degenerate *)
LineMeet(a, b, c, d) ==
  LET dd == Den(a, b, c, d)  t == NumT(a, b, c, d)  s == Sgn(dd) IN
  IF dd = 0 THEN <<>>
  ELSE <<s * (a[1] * dd + t * (b[1] - a[1])), s * (a[2] * dd + t * (b[2] - a[2])), s * dd>>
Cross3(a, b, r) == (b[1] - a[1]) * (r[2] - a[2] * r[3]) - (b[2] - a[2]) * (r[1] - a[1] * r[3])
(* the line through a, b and the segment c d *)
SegMeet(a, b, c, d) ==
  IF a = b \/ c = d THEN <<>>
  ELSE IF Orient(a, b, c) = 0 THEN <<c[1], c[2], 1>>
  ELSE IF Orient(a, b, d) = 0 THEN <<d[1], d[2], 1>>
  ELSE IF Orient(a, b, c) = Orient(a, b, d) THEN <<>>
  ELSE LineMeet(a, b, c, d)
Unit(n, d) == IF d > 0 THEN 0 <= n /\ n <= d ELSE d <= n /\ n <= 0
Proper(a, b, c, d) == LET dd == Den(a, b, c, d)  t == NumT(a, b, c, d)  u == NumT(c, d, a, b) IN
  dd # 0 /\ Unit(t, dd) /\ t \notin {0, dd} /\ Unit(u, -dd) /\ u \notin {0, -dd}

Init == p1 \in Grid /\ p2 \in Grid /\ q1 \in Grid /\ q2 \in Grid
Turn == p1' = p2 /\ p2' = p1 /\ UNCHANGED <<q1, q2>>
Exchange == p1' = q1 /\ p2' = q2 /\ q1' = p1 /\ q2' = p2
Slide == \E k \in {-1, 2} : LET r == <<p1[1] + k * (p2[1] - p1[1]), p1[2] + k * (p2[2] - p1[2])>> IN
           r \in Grid /\ p2' = r /\ UNCHANGED <<p1, q1, q2>>
Next == Turn \/ Exchange \/ Slide
Spec == Init /\ [][Next]_vars

(* ------------------------------ properties ------------------------------ *)
L == LineMeet(p1, p2, q1, q2)
EqP(r, s) == (r = <<>>) = (s = <<>>) /\ (r # <<>> => r[1] * s[3] = s[1] * r[3] /\ r[2] * s[3] = s[2] * r[3])
OnBoth == L # <<>> => Cross3(p1, p2, L) = 0 /\ Cross3(q1, q2, L) = 0
(* absent exactly when the directions are parallel (or one is no direction) *)
Parallel(a, b, c, d) == \E k \in (-N)..N, m \in (-N)..N : (k # 0 \/ m # 0) /\ k * (b[1] - a[1]) = m * (d[1] - c[1]) /\ k * (b[2] - a[2]) = m * (d[2] - c[2])
AbsentRight == L = <<>> <=> Parallel(p1, p2, q1, q2)
SegRight == p1 # p2 /\ q1 # q2 =>
  (SegMeet(p1, p2, q1, q2) # <<>> <=> Orient(p1, p2, q1) * Orient(p1, p2, q2) <= 0)
Same == [][EqP(L, LineMeet(p1', p2', q1', q2'))]_vars

(* ------------------------------ conformance ----------------------------- *)
Out(r) == IF r = <<>> THEN "none" ELSE <<"pt", r[1], r[2], r[3]>>
(* grid points n (of spacing 1 / g) nearest to x / d: two of them half way *)
Nearest(x, d, g) == LET f == (x * g) \div d  rest == 2 * (x * g - f * d) IN
  IF rest < d THEN <<"any", f>> ELSE IF rest > d THEN <<"any", f + 1>> ELSE <<"any", f, f + 1>>
Query(op, a) ==
  CASE op = "lines" -> Out(LineMeet(a[1], a[2], a[3], a[4]))
    [] op = "linesegment" -> LET r == SegMeet(a[1], a[2], a[3], a[4]) IN
         IF r # <<>> /\ r[3] = 1 /\ a[1] # a[2] /\ Orient(a[1], a[2], <<r[1], r[2]>>) = 0 /\ <<r[1], r[2]>> \in {a[3], a[4]}
         THEN <<r[1], r[2]>> ELSE Out(r)
    [] op = "cut" -> IF ~Proper(a[1], a[2], a[3], a[4]) THEN "*"
         ELSE LET r == LineMeet(a[1], a[2], a[3], a[4]) IN
              IF a[5] = 0 THEN Out(r) ELSE <<Nearest(r[1], r[3], a[5]), Nearest(r[2], r[3], a[5])>>
S(op, a) == Step(op, a, Query(op, a))
EmitCases == LET a == <<p1, p2, q1, q2>> IN
  /\ Emit(<<S("lines", a), S("linesegment", a)>>)
  /\ Proper(p1, p2, q1, q2) => \A g \in 0..3 : Emit(<<S("cut", Append(a, g))>>)
=============================================================================
