-------------------------------- MODULE Tri --------------------------------
(* Triangles on the integer lattice: exact measures, centres and heights.    *)
(* The vertices are relabelled and the triangle is turned and moved.         *)
EXTENDS Lat
CONSTANT N
VARIABLES a, b, c, w         \* three vertices and one more point
vars == <<a, b, c, w>>
P2 == {<<x, y>> : x \in 0..N, y \in 0..N}

Twice(u, v, t) == Cross(u, v, t)
Flat(u, v, t) == Twice(u, v, t) = 0
(* clockwise is positive *)
Signed(u, v, t) == <<"q", -Twice(u, v, t), 2>>
Size(u, v, t) == <<"q", Abs(Twice(u, v, t)), 2>>
Round(u, v, t) == <<"sumsqrt", Dist2(u, v), Dist2(v, t), Dist2(t, u)>>
Longest2(u, v, t) == Max2(Dist2(u, v), Max2(Dist2(v, t), Dist2(t, u)))
Acute(u, v, t) == LET m == Longest2(u, v, t) IN 2 * m < Dist2(u, v) + Dist2(v, t) + Dist2(t, u)
Centre(u, v, t) == <<"pt", u[1] + v[1] + t[1], u[2] + v[2] + t[2], 3>>
(* equally far from the three vertices *)
Circum(u, v, t) ==
  LET ax == u[1] - t[1]  ay == u[2] - t[2]  bx == v[1] - t[1]  by == v[2] - t[2]
      p_ == ax * ax + ay * ay  q_ == bx * bx + by * by  m == 2 * (ax * by - ay * bx) IN
  <<"pt", t[1] * m + p_ * by - q_ * ay, t[2] * m + q_ * ax - p_ * bx, m>>
Radius(u, v, t) == LET k == Twice(u, v, t) IN IF k = 0 THEN "inf" ELSE <<"sqrt", Dist2(u, v) * Dist2(v, t) * Dist2(t, u), 4 * k * k>>
(* the in-centre weighs each vertex with the opposite side, the foot of the bisector at v *)
(* divides the opposite side like the two legs                                            *)
Wt(n, u) == <<n, 2 * u[1], 2 * u[2]>>
In(u, v, t) == <<"wmean", Wt(Dist2(v, t), u), Wt(Dist2(u, t), v), Wt(Dist2(u, v), t)>>
Bisect(u, v, t) == <<"wmean", Wt(Dist2(v, t), u), Wt(Dist2(u, v), t)>>
(* in the closed triangle: no barycentric coordinate is negative *)
Holds(u, v, t, z) == LET k == Sgn(Twice(u, v, t)) IN
  k * Cross(z, v, t) >= 0 /\ k * Cross(u, z, t) >= 0 /\ k * Cross(u, v, z) >= 0
(* the height at z of the plane through the three vertices *)
Height(u, v, t, z) == <<"q", u[3] * Cross(z, v, t) + v[3] * Cross(u, z, t) + t[3] * Cross(u, v, z), Cross(u, v, t)>>
(* in space *)
Sp(u, v, t) ==
  LET e == [i \in 1..3 |-> v[i] - u[i]]  f == [i \in 1..3 |-> t[i] - u[i]]
      x == e[2] * f[3] - e[3] * f[2]  y == e[3] * f[1] - e[1] * f[3]  z == e[1] * f[2] - e[2] * f[1] IN
  <<"sqrt", x * x + y * y + z * z, 4>>

(* ------------------------------ behaviours ------------------------------ *)
Init == a \in P2 /\ b \in P2 /\ c \in P2 /\ w \in P2
Rotate == a' = b /\ b' = c /\ c' = a /\ w' = w
Swap == a' = b /\ b' = a /\ UNCHANGED <<c, w>>
T90(z) == <<N - z[2], z[1]>>
Turn90 == a' = T90(a) /\ b' = T90(b) /\ c' = T90(c) /\ w' = T90(w)
Next == Rotate \/ Swap \/ Turn90
Spec == Init /\ [][Next]_vars

(* ------------------------------ properties ------------------------------ *)
Equidistant == ~Flat(a, b, c) => LET f == Circum(a, b, c)  m == f[4]
    d2(u) == (f[2] - m * u[1]) * (f[2] - m * u[1]) + (f[3] - m * u[2]) * (f[3] - m * u[2])  r == Radius(a, b, c) IN
   d2(a) = d2(b) /\ d2(b) = d2(c) /\ d2(a) * r[3] = r[2] * m * m
HeightRight == ~Flat(a, b, c) =>
   LET u == a \o <<3>>  v == b \o <<-1>>  t == c \o <<2>>  d == Cross(a, b, c) IN
   /\ Height(u, v, t, a)[2] = 3 * d /\ Height(u, v, t, b)[2] = -d /\ Height(u, v, t, c)[2] = 2 * d
   \* affine: the value half way is the mean
   /\ LET m == <<2 * w[1] - a[1], 2 * w[2] - a[2]>> IN Height(u, v, t, m)[2] + 3 * d = 2 * Height(u, v, t, w)[2]
Vertices == ~Flat(a, b, c) => Holds(a, b, c, a) /\ Holds(a, b, c, b) /\ Holds(a, b, c, c)
QEq(x, y) == x[2] * y[3] = y[2] * x[3]
PtEq(x, y) == x[2] * y[4] = y[2] * x[4] /\ x[3] * y[4] = y[3] * x[4]
Same(u, v, t) ==
   /\ Size(u, v, t) = Size(a, b, c) /\ Longest2(u, v, t) = Longest2(a, b, c) /\ Acute(u, v, t) = Acute(a, b, c)
Relabel == [][(w' = w /\ ((a' = b /\ b' = c /\ c' = a) \/ (a' = b /\ b' = a /\ c' = c))) =>
   /\ Same(a', b', c') /\ Centre(a', b', c') = Centre(a, b, c)
   /\ ~Flat(a, b, c) => PtEq(Circum(a', b', c'), Circum(a, b, c)) /\ Holds(a', b', c', w) = Holds(a, b, c, w)
   /\ Signed(a', b', c')[2] = IF c' = c /\ a' = b /\ b' = a THEN -Signed(a, b, c)[2] ELSE Signed(a, b, c)[2]]_vars
Turned == [][(a' = T90(a) /\ b' = T90(b) /\ c' = T90(c) /\ w' = T90(w)) =>
   Same(a', b', c') /\ (~Flat(a, b, c) => Holds(a', b', c', w') = Holds(a, b, c, w))]_vars

(* ------------------------------ conformance ----------------------------- *)
Query(op, x) ==
  LET u == x[1]  v == x[2]  t == IF Len(x) > 2 THEN x[3] ELSE x[1]  ok == ~Flat(u, v, t) IN
  CASE op = "size" -> <<Signed(u, v, t), Size(u, v, t), Round(u, v, t), <<"sqrt", Longest2(u, v, t), 1>>,
                        Bit(Acute(u, v, t)), Bit(Twice(u, v, t) > 0)>>
    [] op = "centre" -> <<Centre(u, v, t), IF ok THEN Circum(u, v, t) ELSE "*", IF ok THEN Circum(u, v, t) ELSE "*", IF ok THEN Circum(u, v, t) ELSE "*",
                          IF u = v /\ v = t THEN "*" ELSE In(u, v, t), IF u = v /\ v = t THEN "*" ELSE Bisect(u, v, t)>>
    [] op = "radius" -> Radius(u, v, t)
    [] op = "holds" -> IF ok THEN Bit(Holds(u, v, t, x[4])) ELSE "*"
    [] op = "height" -> IF ok THEN Height(u, v, t, x[4]) ELSE "*"
    [] op = "space" -> Sp(u, v, t)
Case(op, x) == Emit(<<Step(op, x, Query(op, x))>>)
Lift(u, z) == <<u[1], u[2], z>>
EmitCases ==
  /\ Case("holds", <<a, b, c, w>>)
  /\ \A z \in {<<0, 0, 5>>, <<1, -3, 2>>} : Case("height", <<Lift(a, z[1]), Lift(b, z[2]), Lift(c, z[3]), w>>)
  /\ w = a => /\ Case("size", <<a, b, c>>) /\ Case("centre", <<a, b, c>>) /\ Case("radius", <<a, b, c>>)
              /\ \A z \in 0..1, y \in 0..2 : Case("space", <<Lift(a, 0), Lift(b, z), Lift(c, y)>>)
=============================================================================
