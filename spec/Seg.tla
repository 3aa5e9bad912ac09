--------------------------------- MODULE Seg --------------------------------
(* A segment a-b, a second one c-d (its first end doubles as a free point)   *)
(* and the exact results of the operations on them.  The segment is reversed,*)
(* its parts are exchanged and everything is translated and turned.          *)
EXTENDS Dist
VARIABLES a, b, c, d
svars == <<a, b, c, d>>
P2 == {<<x, y>> : x \in 0..N, y \in 0..N}

L2(u, v) == Dist2(u, v)
(* a point on the line u v is <<n, m>>: u + n/m (v - u); as "pt": <<x, y, m>> *)
At(u, v, n, m) == <<"pt", u[1] * m + n * (v[1] - u[1]), u[2] * m + n * (v[2] - u[2]), m>>
Foot(u, v, w) == At(u, v, Dot(u, v, w), L2(u, v))
Factor(u, v, w) == <<Dot(u, v, w), L2(u, v)>>
Clamped(f) == IF f[1] < 0 THEN <<0, 1>> ELSE IF f[1] > f[2] THEN <<1, 1>> ELSE f
Q(f) == <<"q", f[1], f[2]>>
(* nearest point of the segment *)
Near(u, v, w) == IF u = v THEN At(u, v, 0, 1) ELSE LET f == Clamped(Factor(u, v, w)) IN At(u, v, f[1], f[2])
Mirror(u, v, w) == LET f == Foot(u, v, w) IN <<"pt", 2 * f[2] - f[4] * w[1], 2 * f[3] - f[4] * w[2], f[4]>>
Beyond(u, v, s_, t) == LET f == Factor(u, v, s_)  h == Factor(u, v, t) IN
  (f[1] < 0 /\ h[1] < 0) \/ (f[1] > f[2] /\ h[1] > h[2])
(* the part of u v onto which the segment s t falls; nothing when it falls beyond an end *)
Part(u, v, s_, t) ==
  LET f == Factor(u, v, s_)  h == Factor(u, v, t)
      x == Clamped(f)  y == Clamped(h)  ans == <<At(u, v, x[1], x[2]), At(u, v, y[1], y[2])>>
      edge == (f[1] <= 0 /\ h[1] <= 0) \/ (f[1] >= f[2] /\ h[1] >= h[2]) IN
  IF Beyond(u, v, s_, t) THEN "none" ELSE IF edge THEN <<"any", "none", ans>> ELSE ans
(* on a segment along an axis all of this is about order alone, so the scale may be any *)
Straight(u, v) == u # v /\ (u[1] = v[1] \/ u[2] = v[2])
Within(x, y, z) == Max2(Min2(x, y), Min2(Max2(x, y), z))
SFoot(u, v, w) == IF u[2] = v[2] THEN <<w[1], u[2]>> ELSE <<u[1], w[2]>>
SNear(u, v, w) == IF u[2] = v[2] THEN <<Within(u[1], v[1], w[1]), u[2]>> ELSE <<u[1], Within(u[2], v[2], w[2])>>
SBeyond(u, v, s_, t) ==
  LET k == IF u[2] = v[2] THEN 1 ELSE 2  lo == Min2(u[k], v[k])  hi == Max2(u[k], v[k]) IN
  (s_[k] < lo /\ t[k] < lo) \/ (s_[k] > hi /\ t[k] > hi)
SPart(u, v, s_, t) ==
  LET k == IF u[2] = v[2] THEN 1 ELSE 2  lo == Min2(u[k], v[k])  hi == Max2(u[k], v[k])
      ans == <<SNear(u, v, s_), SNear(u, v, t)>> IN
  IF SBeyond(u, v, s_, t) THEN "none"
  ELSE IF (s_[k] <= lo /\ t[k] <= lo) \/ (s_[k] >= hi /\ t[k] >= hi) THEN "*" ELSE ans
(* o quarters of the segment's length to the left *)
Aside(u, v, n, m, o) == <<"pt", 4 * (u[1] * m + n * (v[1] - u[1])) - o * m * (v[2] - u[2]),
                               4 * (u[2] * m + n * (v[2] - u[2])) + o * m * (v[1] - u[1]), 4 * m>>
Meets(u, v, s_, t) == SS(Lift(u), Lift(v), Lift(s_), Lift(t))[1] = 0

(* ------------------------------ behaviours ------------------------------ *)
SInit == /\ p = <<0, 0, 0>> /\ q = p /\ r = p /\ s = p
         /\ a \in P2 /\ b \in P2 /\ c \in P2 /\ d \in P2
Back == a' = b /\ b' = a /\ UNCHANGED <<c, d>>
Exchange == a' = c /\ b' = d /\ c' = a /\ d' = b
T90(w) == <<N - w[2], w[1]>>
Turn90 == a' = T90(a) /\ b' = T90(b) /\ c' = T90(c) /\ d' = T90(d)
SNext == (Back \/ Exchange \/ Turn90) /\ UNCHANGED vars
SSpec == SInit /\ [][SNext]_<<svars, vars>>

(* ------------------------------ properties ------------------------------ *)
PtEq(x, y) == x[2] * y[4] = y[2] * x[4] /\ x[3] * y[4] = y[3] * x[4]
X(f) == <<f[2], f[3]>>
(* the foot is on the line and the connection is perpendicular to it *)
FootRight == a # b => LET f == Foot(a, b, c)  m == f[4] IN
   /\ (b[1] - a[1]) * (f[3] - m * a[2]) = (b[2] - a[2]) * (f[2] - m * a[1])
   /\ (b[1] - a[1]) * (m * c[1] - f[2]) + (b[2] - a[2]) * (m * c[2] - f[3]) = 0
(* reflecting keeps the distances to both ends and exchanges the sides *)
MirrorRight == a # b => LET f == Mirror(a, b, c)  m == f[4] IN
   /\ Dist2(X(f), <<m * a[1], m * a[2]>>) = m * m * Dist2(c, a)
   /\ Dist2(X(f), <<m * b[1], m * b[2]>>) = m * m * Dist2(c, b)
   /\ Sgn(Cross(<<m * a[1], m * a[2]>>, <<m * b[1], m * b[2]>>, X(f))) = -Orient(a, b, c)
(* nothing on the segment is nearer than the nearest point *)
NearRight == LET f == Near(a, b, c)  m == f[4] IN
   \A i \in 0..4 : LET z == <<4 * a[1] + i * (b[1] - a[1]), 4 * a[2] + i * (b[2] - a[2])>> IN
      16 * Dist2(X(f), <<m * c[1], m * c[2]>>) <= m * m * Dist2(z, <<4 * c[1], 4 * c[2]>>)
StraightRight == Straight(a, b) =>
   /\ PtEq(Foot(a, b, c), <<"pt">> \o SFoot(a, b, c) \o <<1>>)
   /\ PtEq(Near(a, b, c), <<"pt">> \o SNear(a, b, c) \o <<1>>)
   /\ SBeyond(a, b, c, d) = Beyond(a, b, c, d)
Undirected == [][(a' = b /\ b' = a /\ c' = c /\ a # b) =>
   /\ PtEq(Foot(a, b, c), Foot(a', b', c)) /\ PtEq(Near(a, b, c), Near(a', b', c)) /\ PtEq(Mirror(a, b, c), Mirror(a', b', c))
   /\ Beyond(a, b, c, d) = Beyond(a', b', c, d)]_<<svars, vars>>
MeetsEither == [][Meets(a', b', c', d') = Meets(a, b, c, d)]_<<svars, vars>>

(* ------------------------------ conformance ----------------------------- *)
SQuery(op, x) ==
  LET u == x[1]  v == x[2] IN
  CASE op = "point" -> LET w == x[3] IN
         <<IF u = v THEN "*" ELSE Q(Factor(u, v, w)),
           IF u = v THEN (IF u = w THEN "*" ELSE 1) ELSE Q(Clamped(Factor(u, v, w))),
           IF u = v THEN "*" ELSE Foot(u, v, w), Near(u, v, w),
           IF u = v THEN "*" ELSE Mirror(u, v, w)>>
    [] op = "own" -> <<At(u, v, 1, 2), Root(<<L2(u, v), 1>>), <<v[1] - u[1], v[2] - u[2]>>,
                       Bit(u[2] = v[2]), Bit(u[1] = v[1]), Min2(u[1], v[1]), Max2(u[1], v[1]), Min2(u[2], v[2]), Max2(u[2], v[2])>>
    [] op = "along" -> At(u, v, x[3], x[4])
    [] op = "aside" -> IF u = v THEN "*" ELSE Aside(u, v, x[3], x[4], x[5])
    [] op = "shift" -> IF u = v THEN "*" ELSE <<Aside(u, v, 0, 1, x[3]), Aside(u, v, 1, 1, x[3])>>
    [] op = "part" -> IF u = v THEN "*" ELSE Part(u, v, x[3], x[4])
    \* number of points, their distance, and how far they are from the first and second segment
    [] op = "pair" -> <<2, Root(SS(Lift(u), Lift(v), Lift(x[3]), Lift(x[4]))), Q(<<0, 1>>), Q(<<0, 1>>)>>
    [] op = "straight" -> IF Straight(u, v) THEN <<SFoot(u, v, x[3]), SNear(u, v, x[3]), SPart(u, v, x[3], x[4])>> ELSE "*"
    [] op = "meet" -> Bit(Meets(u, v, x[3], x[4]))
S(op, x) == Step(op, x, SQuery(op, x))
EmitSeg == /\ Emit(<<S("part", <<a, b, c, d>>), S("pair", <<a, b, c, d>>)>>
                   \o (IF Straight(a, b) THEN <<S("straight", <<a, b, c, d>>)>> ELSE <<>>) \o (IF a # b /\ c # d THEN <<S("meet", <<a, b, c, d>>)>> ELSE <<>>))
           /\ d = a => Emit(<<S("point", <<a, b, c>>)>>)
           /\ (c = a /\ d = a) => /\ Emit(<<S("own", <<a, b>>)>>)
                                  /\ \A n \in -1..3 : Emit(<<S("along", <<a, b, n, 2>>), S("aside", <<a, b, n, 2, n>>), S("shift", <<a, b, n + 1>>), S("shift", <<a, b, -n>>)>>)
=============================================================================
