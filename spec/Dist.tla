-------------------------------- MODULE Dist --------------------------------
(* Squared distances between points, segments and polylines, in the plane   *)
(* and in space, as exact rationals <<n, d>>.                               *)
EXTENDS Lat
CONSTANTS N, Z             \* x, y in 0..N, z in 0..Z
VARIABLES p, q, r, s
vars == <<p, q, r, s>>
P3 == {<<x, y, z>> : x \in 0..N, y \in 0..N, z \in 0..Z}

Sub(u, v) == <<u[1] - v[1], u[2] - v[2], u[3] - v[3]>>
Dt(u, v) == u[1] * v[1] + u[2] * v[2] + u[3] * v[3]
Cr(u, v) == <<u[2] * v[3] - u[3] * v[2], u[3] * v[1] - u[1] * v[3], u[1] * v[2] - u[2] * v[1]>>
Sqr(u) == Dt(u, u)
QLess(a, b) == a[1] * b[2] < b[1] * a[2]
QMin(a, b) == IF QLess(b, a) THEN b ELSE a

PP(a, b) == <<Sqr(Sub(a, b)), 1>>
(* point and segment: the foot of the perpendicular if it lies on the segment, else the nearer end *)
PS(x, a, b) ==
  LET u == Sub(b, a)  w == Sub(x, a) IN
  IF a = b \/ Dt(w, u) <= 0 THEN PP(x, a)
  ELSE IF Dt(w, u) >= Sqr(u) THEN PP(x, b)
  ELSE <<Sqr(Cr(u, w)), Sqr(u)>>
(* two segments: the common perpendicular if its feet lie on both segments, else an end is involved *)
SS(a, b, c, d) ==
  LET u == Sub(b, a)  v == Sub(d, c)  w == Sub(c, a)  k == Cr(u, v)  kk == Sqr(k)
      sn == Dt(Cr(w, v), k)  tn == Dt(Cr(w, u), k)
      ends == QMin(QMin(PS(a, c, d), PS(b, c, d)), QMin(PS(c, a, b), PS(d, a, b))) IN
  IF kk # 0 /\ sn >= 0 /\ sn <= kk /\ tn >= 0 /\ tn <= kk
  THEN <<Dt(w, k) * Dt(w, k), kk>> ELSE ends
RECURSIVE PL(_, _, _)
PL(x, l, i) == IF i >= Len(l) THEN PP(x, l[1]) ELSE QMin(PS(x, l[i], l[i + 1]), PL(x, l, i + 1))
Lift(a) == <<a[1], a[2], 0>>
LiftS(l) == [i \in DOMAIN l |-> Lift(l[i])]

Canon(a) == \A k \in 1..3 : a[k] = 0
Init == p \in P3 /\ q \in P3 /\ r \in P3 /\ s \in P3
Swap == p' = r /\ q' = s /\ r' = p /\ s' = q
Turn == p' = q /\ q' = p /\ UNCHANGED <<r, s>>
Next == Swap \/ Turn
Spec == Init /\ [][Next]_vars

(* ------------------------------ properties ------------------------------ *)
D == SS(p, q, r, s)
QEq(a, b) == a[1] * b[2] = b[1] * a[2]
Symmetric == [][QEq(SS(p, q, r, s)', D)]_vars
(* no pair of sampled points of the two segments is nearer; and some pair is that near *)
Pt4(a, b, i) == <<4 * a[1] + i * (b[1] - a[1]), 4 * a[2] + i * (b[2] - a[2]), 4 * a[3] + i * (b[3] - a[3])>>
IsMinimum == \A i, j \in 0..4 : ~QLess(<<Sqr(Sub(Pt4(p, q, i), Pt4(r, s, j))), 16>>, D)
Flat == \A x \in {p, q, r, s} : x[3] = 0
ZeroIffMeet == Flat => (D[1] = 0 <=>
   \/ (p # q /\ r # s /\ Orient(p, q, r) * Orient(p, q, s) < 0 /\ Orient(r, s, p) * Orient(r, s, q) < 0)
   \/ OnSeg(p, r, s) \/ OnSeg(q, r, s) \/ OnSeg(r, p, q) \/ OnSeg(s, p, q))

(* ------------------------------ conformance ----------------------------- *)
Root(f) == <<"sqrt", f[1], f[2]>>
Perp2(x, a, b) == IF a = b THEN PP(x, a) ELSE <<Sqr(Cr(Sub(b, a), Sub(x, a))), Sqr(Sub(b, a))>>
Query(op, a) ==
  CASE op = "ss" -> Root(SS(Lift(a[1]), Lift(a[2]), Lift(a[3]), Lift(a[4])))
    [] op = "ps" -> Root(PS(Lift(a[1]), Lift(a[2]), Lift(a[3])))
    [] op = "pl" -> IF a[2] = <<>> THEN "NaN" ELSE Root(PL(Lift(a[1]), LiftS(a[2]), 1))
    [] op = "perp" -> LET f == Perp2(Lift(a[1]), Lift(a[2]), Lift(a[3])) IN <<Root(f), Orient(a[2], a[3], a[1])>>
    [] op = "ss3" -> Root(SS(a[1], a[2], a[3], a[4]))
    [] op = "ps3" -> Root(PS(a[1], a[2], a[3]))
    [] op = "pp3" -> Root(PP(a[1], a[2]))
Case(op, a) == Emit(<<Step(op, a, Query(op, a))>>)
F2(x) == <<x[1], x[2]>>
EmitCases ==
  IF Z = 0
  THEN /\ Case("ss", <<F2(p), F2(q), F2(r), F2(s)>>)
       /\ Case("pl", <<F2(p), <<F2(q), F2(r), F2(s)>> >>)
       /\ q = s => Case("ps", <<F2(p), F2(q), F2(r)>>) /\ Case("perp", <<F2(p), F2(q), F2(r)>>)
                   /\ Case("pl", <<F2(p), <<F2(q)>> >>) /\ Case("pl", <<F2(p), <<>> >>)
  ELSE /\ Case("ss3", <<p, q, r, s>>)
       /\ q = s => Case("ps3", <<p, q, r>>) /\ Case("pp3", <<p, q>>)
=============================================================================
