-------------------------------- MODULE Ang --------------------------------
(* Angles.  Directions are lattice vectors; an angle between them is given   *)
(* by its cross and dot product: <<"ang", cross, dot>>.  Plain angles are     *)
(* whole numbers of 24ths of a turn: <<"pi", n, 12>> is n/12 of pi.           *)
EXTENDS Lat
CONSTANTS N, T              \* vectors in -N..N, angles up to T 24ths
VARIABLES u, v, n, k
vars == <<u, v, n, k>>
V == {w \in {<<x, y>> : x \in -N..N, y \in -N..N} : w # <<0, 0>>}
Turns == -T..T

X(a, b) == a[1] * b[2] - a[2] * b[1]
D(a, b) == a[1] * b[1] + a[2] * b[2]
M24(a) == a % 24
(* (-12, 12] and [0, 24) *)
Norm(a) == IF M24(a) > 12 THEN M24(a) - 24 ELSE M24(a)
Pos(a) == M24(a)
Diff(a, b) == LET d == Abs(Norm(a) - Norm(b)) IN Min2(d, 24 - d)
(* which way from a to b is shorter *)
Way(a, b) == LET d == Norm(b - a) IN IF d = 12 THEN "either" ELSE IF d > 0 THEN "left" ELSE IF d < 0 THEN "right" ELSE "none"
(* the eight directions *)
Dirs == <<<<1, 0>>, <<1, 1>>, <<0, 1>>, <<-1, 1>>, <<-1, 0>>, <<-1, -1>>, <<0, -1>>, <<1, -1>>>>
Dir(a) == Dirs[M24(a) \div 3 + 1]
(* signed square of cos(n pi / 12), where it is a fraction of four *)
Cos4(a) == LET m == M24(a) IN
  CASE m = 0 -> 4 [] m \in {2, 22} -> 3 [] m \in {3, 21} -> 2 [] m \in {4, 20} -> 1 [] m \in {6, 18} -> 0
    [] m \in {8, 16} -> -1 [] m \in {9, 15} -> -2 [] m \in {10, 14} -> -3 [] m = 12 -> -4
Nice(a) == M24(a) % 2 = 0 \/ M24(a) % 3 = 0
Sin4(a) == Cos4(a - 6)

(* ------------------------------ behaviours ------------------------------ *)
Init == (u \in V /\ v \in V /\ n = 0 /\ k = 0) \/ (u = <<1, 0>> /\ v = u /\ n \in Turns /\ k \in {0, 1, -5, 12})
Quarter == u' = <<-u[2], u[1]>> /\ v' = <<-v[2], v[1]>> /\ n' = n /\ k' = k
Swap == u' = v /\ v' = u /\ n' = k /\ k' = n /\ n' \in Turns
Flip == u' = <<u[1], -u[2]>> /\ v' = <<v[1], -v[2]>> /\ n' = n /\ k' = k
Onward == n < T /\ k < T /\ n' = n + 1 /\ k' = k + 1 /\ UNCHANGED <<u, v>>
Next == Quarter \/ Swap \/ Flip \/ Onward
Spec == Init /\ [][Next]_vars

(* ------------------------------ properties ------------------------------ *)
Ranges == /\ Norm(n) \in -11..12 /\ Pos(n) \in 0..23 /\ (Norm(n) - n) % 24 = 0 /\ (Pos(n) - n) % 24 = 0
          /\ Norm(Norm(n)) = Norm(n) /\ Pos(Pos(n)) = Pos(n) /\ Norm(Pos(n)) = Norm(n)
          /\ Diff(n, k) \in 0..12 /\ Diff(n, k) = Diff(k, n)
(* the two ways to see an angle agree on the eight directions *)
Agree == (M24(n) % 3 = 0 /\ M24(k) % 3 = 0) =>
   LET a == Dir(n)  b == Dir(k) IN
   /\ Sgn(X(a, b)) = CASE Way(n, k) = "left" -> 1 [] Way(n, k) = "right" -> -1 [] OTHER -> 0
   /\ D(a, b) > 0 <=> Diff(n, k) < 6
   /\ D(a, b) < 0 <=> Diff(n, k) > 6
Circle == Nice(n) => Abs(Cos4(n)) + Abs(Sin4(n)) = 4
Together == [][(n' = n + 1 /\ k' = k + 1) => Diff(n, k)' = Diff(n, k) /\ Way(n, k)' = Way(n, k)]_vars
Turned == [][u' = <<-u[2], u[1]>> /\ v' = <<-v[2], v[1]>> => X(u', v') = X(u, v) /\ D(u', v') = D(u, v)]_vars

(* ------------------------------ conformance ----------------------------- *)
PiOf(m) == <<"pi", m, 12>>
\* rounding may leave a value at the seam on either side, never outside the range
NormOf(a) == IF Abs(a) = 12 THEN PiOf(12) ELSE PiOf(Norm(a))
Trig(base, dist, f) == IF f = 0 THEN base ELSE <<"plus", base, Sgn(f) * dist, Abs(f), 4>>
Query(op, x) ==
  CASE op = "vec" -> LET a == x[1]  b == x[2] IN
         <<<<"ang", a[2], a[1]>>, <<"ang", X(a, b), D(a, b)>>, <<"ang", Abs(X(a, b)), D(a, b)>>, <<"ang", X(a, b), D(a, b)>>,
           <<Bit(D(a, b) > 0), Bit(D(a, b) < 0)>>,
           \* twice the bisector is the sum of the angles, and it is not on the far side
           <<"ang", a[1] * b[2] + a[2] * b[1], a[1] * b[1] - a[2] * b[2]>>, 1>>
    [] op = "norm" -> <<NormOf(x[1]), PiOf(Pos(x[1])), <<"q", 15 * x[1], 1>>, PiOf(x[1])>>
    \* very many turns; and so many that the angle itself is not known to a turn
    [] op = "many" -> <<PiOf(Norm(x[1])), PiOf(Pos(x[1]))>>
    [] op = "far" -> <<"in", "in">>
    [] op = "tiny" -> <<PiOf(0), PiOf(0)>>
    \* 2^-x[3] to one side of a direction: the turn is to that side, and that is the difference
    [] op = "aturn" -> <<x[2], -x[2], <<"q", 1, 1>>>>
    \* 2^-x[3] to one side of a quarter turn: as far from zero as the angle is from the quarter
    [] op = "asnap" -> LET q == (x[1] \div 6) % 4 IN
         <<IF q = 1 THEN <<"q", -x[2], 1>> ELSE IF q = 3 THEN <<"q", x[2], 1>> ELSE "*",
           IF q = 0 THEN <<"q", x[2], 1>> ELSE IF q = 2 THEN <<"q", -x[2], 1>> ELSE "*">>
    \* next to a right angle, by the sign of the dot product d; the angle at the other short end is seen too
    [] op = "square" -> LET d == x[1] * x[4] IN <<Bit(d > 0), Bit(d < 0), Bit(d > 0), Bit(d < 0), Bit(d > 0 /\ x[1] * x[1] + x[2] * x[2] > d)>>
    \* which way is shorter does not depend on whole turns
    [] op = "turns" -> CASE Way(x[1], x[2]) = "left" -> <<1, -1>> [] Way(x[1], x[2]) = "right" -> <<-1, 1>> [] OTHER -> <<"*", "*">>
    [] op = "two" -> <<PiOf(Diff(x[1], x[2])),
                       IF x[1] = x[2] THEN 0 ELSE CASE Way(x[1], x[2]) = "left" -> 1 [] Way(x[1], x[2]) = "right" -> -1 [] OTHER -> "*">>
    [] op = "project" -> IF ~Nice(x[2]) THEN "*" ELSE <<Trig(x[1][1], x[3], Cos4(x[2])), Trig(x[1][2], x[3], Sin4(x[2]))>>
    [] op = "snap" -> IF ~Nice(x[1]) THEN "*" ELSE <<Trig(0, 1, Cos4(x[1])), Trig(0, 1, Sin4(x[1]))>>
Case(op, x) == Emit(<<Step(op, x, Query(op, x))>>)
EmitCases ==
  IF n = 0 /\ k = 0 THEN Case("vec", <<u, v>>)
  ELSE /\ Case("norm", <<n>>)
       /\ k = 1 => /\ \A m \in {0, 1000, 1000000, 40000000} : Case("many", <<n + 24 * m>>) /\ Case("many", <<n - 24 * m>>)
                   /\ \A e \in {10, 40, 50, 52, 53, 54, 55, 56, 60, 100, 500, 1010} : Case("far", <<n, e>>)
       /\ k = 1 => Case("tiny", <<n \div 24, 1, Abs(n)>>) /\ Case("tiny", <<n \div 24, -1, Abs(n)>>)
       /\ (Abs(n) <= 24 /\ k = 1) => \A e \in {20, 30, 40, 44} : \A s \in {-1, 1} :
            Case("aturn", <<n, s, e>>) /\ (n % 6 = 0 => Case("asnap", <<n, s, e>>))
       /\ (Abs(n) <= 12 /\ Abs(k) <= 12) => \A m \in {-100, -7, -1, 1, 9, 150} : Case("turns", <<n, k, m>>)
       /\ (Abs(n) <= 12 /\ n # 0 /\ k = 1) => \A j \in {10, 30, 42}, s \in {-1, 0, 1}, q \in {0, 1, -7} : Case("square", <<n, q, j, s>>)
       /\ (Abs(n) <= 12 /\ Abs(k) <= 12) => Case("two", <<n, k>>)
       /\ Abs(n) <= 24 => Case("project", <<<<k, n>>, n, 4>>) /\ Case("snap", <<n>>)
=============================================================================
