------------------------------- MODULE SegInt -------------------------------
(* Intersection of two segments, and a reusable intersector object.         *)
(* The definition solves for the intersection set; the implementation-      *)
(* shaped classification (four orientations, collinear case split) is       *)
(* specified separately and TLC checks that the two agree.                  *)
EXTENDS Lat
CONSTANTS N
VARIABLES p1, p2, q1, q2
vars == <<p1, p2, q1, q2>>
Grid == (0..N) \X (0..N)
NONE == 0
POINT == 1
COLLINEAR == 2

(* ------------------------------ definition ------------------------------ *)
(* <<kind, proper, points>>; a point is <<x, y>> or <<"q", ..>> when rational *)
Den(a, b, c, d) == (b[1] - a[1]) * (d[2] - c[2]) - (b[2] - a[2]) * (d[1] - c[1])
NumT(a, b, c, d) == (c[1] - a[1]) * (d[2] - c[2]) - (c[2] - a[2]) * (d[1] - c[1])
NumU(a, b, c, d) == (c[1] - a[1]) * (b[2] - a[2]) - (c[2] - a[2]) * (b[1] - a[1])
Unit(n, d) == IF d > 0 THEN 0 <= n /\ n <= d ELSE d <= n /\ n <= 0
RPoint(a, b, c, d) ==
  LET dd == Den(a, b, c, d)  t == NumT(a, b, c, d)
      x == a[1] * dd + t * (b[1] - a[1])
      y == a[2] * dd + t * (b[2] - a[2])
      s == Sgn(dd)
  IN <<s * x, s * y, s * dd>>
Meet(a, b, c, d) ==
  LET dd == Den(a, b, c, d)
      none == [kind |-> NONE, proper |-> FALSE, pts |-> {}]
  IN
  IF dd # 0 THEN
    IF Unit(NumT(a, b, c, d), dd) /\ Unit(NumU(a, b, c, d), dd)
    THEN LET r == RPoint(a, b, c, d) IN
         [kind |-> POINT,
          proper |-> NumT(a, b, c, d) \notin {0, dd} /\ NumU(a, b, c, d) \notin {0, dd},
          pts |-> {r}]
    ELSE none
  ELSE IF a = b /\ c = d THEN (IF a = c THEN [kind |-> POINT, proper |-> FALSE, pts |-> {<<a[1], a[2], 1>>}] ELSE none)
  ELSE IF a = b THEN (IF OnSeg(a, c, d) THEN [kind |-> POINT, proper |-> FALSE, pts |-> {<<a[1], a[2], 1>>}] ELSE none)
  ELSE IF c = d THEN (IF OnSeg(c, a, b) THEN [kind |-> POINT, proper |-> FALSE, pts |-> {<<c[1], c[2], 1>>}] ELSE none)
  ELSE IF Cross(a, b, c) # 0 THEN none
  ELSE LET lo == LexMax(LexMin(a, b), LexMin(c, d))
           hi == LexMin(LexMax(a, b), LexMax(c, d)) IN
       IF LexLess(hi, lo) THEN none
       ELSE IF lo = hi THEN [kind |-> POINT, proper |-> FALSE, pts |-> {<<lo[1], lo[2], 1>>}]
       ELSE [kind |-> COLLINEAR, proper |-> FALSE, pts |-> {<<lo[1], lo[2], 1>>, <<hi[1], hi[2], 1>>}]

(* ------------------- implementation-shaped classification --------------- *)
BoxesMeet(a, b, c, d) ==
  /\ Max2(Min2(a[1], b[1]), Min2(c[1], d[1])) <= Min2(Max2(a[1], b[1]), Max2(c[1], d[1]))
  /\ Max2(Min2(a[2], b[2]), Min2(c[2], d[2])) <= Min2(Max2(a[2], b[2]), Max2(c[2], d[2]))
SameSide(s, t) == (s > 0 /\ t > 0) \/ (s < 0 /\ t < 0)
Kind4(a, b, c, d) ==
  LET pc == Orient(a, b, c)  pd == Orient(a, b, d)  qa == Orient(c, d, a)  qb == Orient(c, d, b) IN
  IF ~BoxesMeet(a, b, c, d) \/ SameSide(pc, pd) \/ SameSide(qa, qb) THEN NONE
  ELSE IF pc = 0 /\ pd = 0 /\ qa = 0 /\ qb = 0 THEN COLLINEAR   \* refined by the box tests below
  ELSE POINT
CollinearKind(a, b, c, d) ==
  LET cp == InBox(c, a, b)  dp == InBox(d, a, b)  aq == InBox(a, c, d)  bq == InBox(b, c, d) IN
  IF ~(cp \/ dp \/ aq \/ bq) THEN NONE
  ELSE IF Cardinality({x \in {a, b, c, d} : (x \in {c, d} /\ InBox(x, a, b)) \/ (x \in {a, b} /\ InBox(x, c, d))}) = 1 THEN POINT
  ELSE COLLINEAR
Refined(a, b, c, d) == IF Kind4(a, b, c, d) = COLLINEAR THEN CollinearKind(a, b, c, d) ELSE Kind4(a, b, c, d)

(* ---------------------- state machine: relabellings --------------------- *)
Init == p1 \in Grid /\ p2 \in Grid /\ q1 \in Grid /\ q2 \in Grid
FlipP == p1' = p2 /\ p2' = p1 /\ UNCHANGED <<q1, q2>>
FlipQ == q1' = q2 /\ q2' = q1 /\ UNCHANGED <<p1, p2>>
Exchange == p1' = q1 /\ p2' = q2 /\ q1' = p1 /\ q2' = p2
Next == FlipP \/ FlipQ \/ Exchange
Spec == Init /\ [][Next]_vars

M == Meet(p1, p2, q1, q2)
Same(s, t) == s.kind = t.kind /\ s.proper = t.proper /\ Cardinality(s.pts) = Cardinality(t.pts)
              /\ \A x \in s.pts : \E y \in t.pts : x[1] * y[3] = y[1] * x[3] /\ x[2] * y[3] = y[2] * x[3]
Symmetric == [][Same(M, Meet(p1', p2', q1', q2'))]_vars
Degenerate == p1 = p2 \/ q1 = q2
RefinedRight == ~Degenerate => Refined(p1, p2, q1, q2) = M.kind
ProperInterior == M.proper => \A e \in {p1, p2} : ~OnSeg(e, q1, q2)

(* the endpoints that are nearest to the other segment; squared distances are <<numerator, denominator>> *)
ToSeg2(p, a, b) ==
  LET l == Dist2(a, b)  t == Dot(a, b, p) IN
  IF a = b \/ t <= 0 THEN <<Dist2(p, a), 1>> ELSE IF t >= l THEN <<Dist2(p, b), 1>>
  ELSE <<Cross(a, b, p) * Cross(a, b, p), l>>
Nearest(a, b, c, d) ==
  LET E == {<<a, ToSeg2(a, c, d)>>, <<b, ToSeg2(b, c, d)>>, <<c, ToSeg2(c, a, b)>>, <<d, ToSeg2(d, a, b)>>} IN
  {e[1] : e \in {e \in E : \A f \in E : e[2][1] * f[2][2] <= f[2][1] * e[2][2]}}
NearestTouches == M.kind # NONE /\ ~M.proper => \A e \in Nearest(p1, p2, q1, q2) : OnSeg(e, p1, p2) /\ OnSeg(e, q1, q2)
RECURSIVE Listed(_)
Listed(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o Listed(S \ {x})

(* ------------------------------ conformance ----------------------------- *)
Pt(proper, r) == IF proper THEN <<"pt", r[1], r[2], r[3]>> ELSE <<r[1] \div r[3], r[2] \div r[3]>>
Result(a, b, c, d) ==
  LET m == Meet(a, b, c, d) IN
  IF a = b \/ c = d THEN <<Bit(m.kind # NONE), "deg">>
  ELSE <<m.kind, Bit(m.proper)>>
Points(a, b, c, d) ==
  LET m == Meet(a, b, c, d)  S == m.pts IN
  IF S = {} THEN <<>> ELSE
  IF Cardinality(S) = 1 THEN <<Pt(m.proper, CHOOSE x \in S : TRUE)>> ELSE
  LET x == CHOOSE x \in S : TRUE  y == CHOOSE y \in S : y # x IN <<Pt(FALSE, x), Pt(FALSE, y)>>
EmitCases == Emit(<<Step("meet", <<p1, p2, q1, q2>>, <<Result(p1, p2, q1, q2), <<"set">> \o Points(p1, p2, q1, q2)>>),
                    Step("onpt", <<p1, p2, q1>>, <<Bit(OnSeg(q1, p1, p2)), Bit(OnSeg(q1, p1, p2) /\ q1 # p1 /\ q1 # p2)>>),
                    Step("nearest", <<p1, p2, q1, q2>>, <<"any">> \o Listed(Nearest(p1, p2, q1, q2)))>>)

(* a logged proper point is <<x*den, y*den, den>>, or <<>> when only its    *)
(* lying in both boxes could be observed                                    *)
LogOK(r, a, b, c, d) ==
  LET m == Meet(a, b, c, d) IN
  /\ r[1] = Result(a, b, c, d)
  /\ Len(r[2]) = Cardinality(m.pts)
  /\ \A s \in m.pts : \E i \in DOMAIN r[2] :
       LET t == r[2][i] IN
       IF m.proper THEN t = <<>> \/ t = s
       ELSE Len(t) = 2 /\ s[1] = t[1] * s[3] /\ s[2] = t[2] * s[3]
EventRight(e) ==
  CASE e.op = "lmeet" -> LogOK(e.r, e.a[1], e.a[2], e.a[3], e.a[4])
    [] e.op = "onpt" -> e.r = <<Bit(OnSeg(e.a[3], e.a[1], e.a[2])), Bit(OnSeg(e.a[3], e.a[1], e.a[2]) /\ e.a[3] # e.a[1] /\ e.a[3] # e.a[2])>>
=============================================================================
