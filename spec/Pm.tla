--------------------------------- MODULE Pm ---------------------------------
(* Precision models.  A model is <<"F">> (floating), <<"S">> (single),       *)
(* <<"X", n, d>> (fixed with scale n/d) or <<"G", n, d>> (fixed with grid    *)
(* size n/d, given as a negative scale).  A value is an integer number of    *)
(* eighths; a snapped value is the number of its grid point.                 *)
EXTENDS Lat
CONSTANTS Top, Big
VARIABLES m, k
vars == <<m, k>>

Fixed(p) == p[1] \in {"X", "G"}
Gn(p) == IF p[1] = "X" THEN p[3] ELSE p[2]          \* grid size Gn/Gd
Gd(p) == IF p[1] = "X" THEN p[2] ELSE p[3]
(* the nearest grid point of the value a/b, the larger one when two are equally near *)
Nearest(p, a, b) == (2 * a * Gd(p) + b * Gn(p)) \div (2 * b * Gn(p))
Tie(p, j) == ((2 * j * Gd(p) + 8 * Gn(p)) % (16 * Gn(p))) = 0
RECURSIVE Bits(_)
Bits(n) == IF n < 16777216 THEN 0 ELSE 1 + Bits(n \div 2)
RECURSIVE TwoTo(_)
TwoTo(n) == IF n = 0 THEN 1 ELSE 2 * TwoTo(n - 1)
(* 24 significant bits, ties to the even significand *)
Single(j) == LET a == Abs(j)  u == TwoTo(Bits(a))  q == a \div u  r == a % u
                 s == IF 2 * r > u \/ (2 * r = u /\ q % 2 = 1) THEN q + 1 ELSE q IN Sgn(j) * s * u
Snap(p, j) == IF Fixed(p) THEN Nearest(p, j, 8) ELSE IF p[1] = "S" THEN Single(j) ELSE j

Dyadic(n) == \E e \in 0..12 : n = TwoTo(e)
(* a tie is only a tie in the implementation when its scale or grid is exact *)
Shown(p, j) == IF Fixed(p) /\ Tie(p, j) /\ ~Dyadic(p[3]) THEN <<"any", Snap(p, j), Snap(p, j) - 1>> ELSE Snap(p, j)

(* a value next to a tie is no tie; where the scale is a power of two no rounding blurs that *)
TwoScale(p) == Dyadic(p[2]) /\ Dyadic(p[3])
Beside(p, j, dir) == IF Tie(p, j) /\ TwoScale(p) THEN (IF dir < 0 THEN Snap(p, j) - 1 ELSE Snap(p, j))
                     ELSE IF Tie(p, j) THEN <<"any", Snap(p, j), Snap(p, j) - 1>> ELSE Snap(p, j)

Facts(p) == IF Fixed(p) THEN <<0, 1, <<"q", Gd(p), Gn(p)>>, <<"q", Gn(p), Gd(p)>>>>
            ELSE <<1, IF p[1] = "S" THEN 2 ELSE 0, "*", "NaN">>
Equal(p, q) == Bit(IF Fixed(p) /\ Fixed(q) THEN Gn(p) * Gd(q) = Gn(q) * Gd(p) ELSE p = q)
Comparable(p, q) == ~(Fixed(p) /\ Fixed(q)) \/ p[1] = q[1] \/ (Dyadic(p[3]) /\ Dyadic(q[3]) /\ Dyadic(p[2]) /\ Dyadic(q[2])) \/ Equal(p, q) = 0

(* significant digits: 1 + the number of decimal places, which is not claimed where the scale is a power of ten *)
RECURSIVE Up(_, _)
Up(n, d) == IF n <= d THEN 0 ELSE 1 + Up(n, 10 * d)
RECURSIVE Down(_, _)
Down(n, d) == IF n > d \div 10 THEN 0 ELSE 1 + Down(10 * n, d)
Places(n, d) == IF n > d THEN Up(n, d) ELSE -Down(n, d)
RECURSIVE Tens(_, _)
Tens(n, d) == n = d \/ (n > d /\ n % 10 = 0 /\ Tens(n \div 10, d))
PowerOfTen(n, d) == Tens(n, d) \/ Tens(d, n)
Digits(p) == CASE p[1] = "F" -> {16} [] p[1] = "S" -> {6}
               [] OTHER -> LET c == 1 + Places(Gd(p), Gn(p)) IN IF PowerOfTen(Gd(p), Gn(p)) THEN {c, c + 1} ELSE {c}
OneOf(S) == IF Cardinality(S) = 1 THEN CHOOSE x \in S : TRUE ELSE <<"any", CHOOSE x \in S : TRUE, CHOOSE x \in S : x # CHOOSE y \in S : TRUE>>
Compare(p, q) == IF p = q THEN 0 ELSE LET S == {Sgn(a - b) : a \in Digits(p), b \in Digits(q)} IN IF Cardinality(S) = 3 THEN "*" ELSE OneOf(S)

(* ------------------------------ behaviours ------------------------------ *)
Frac == {<<1, 1>>, <<2, 1>>, <<3, 1>>, <<10, 1>>, <<100, 1>>, <<1, 2>>, <<1, 8>>, <<5, 2>>, <<7, 1>>, <<1, 10>>, <<3, 100>>, <<25, 4>>}
Models == {<<"F">>, <<"S">>} \cup {<<c, f[1], f[2]>> : c \in {"X", "G"}, f \in Frac}
Init == m \in Models /\ k \in {-Top} \cup (IF m[1] = "S" THEN Big ELSE {})
Raise == k >= -Top /\ k < Top /\ k' = k + 1
Dive == m[1] = "S" /\ k > 0 /\ k' = -k
Step8 == m[1] = "S" /\ k > Top /\ k % 64 < 40 /\ k' = k + 1
Next == (Raise \/ Dive \/ Step8) /\ UNCHANGED m
Spec == Init /\ [][Next]_vars

(* ------------------------------ properties ------------------------------ *)
Monotone == [][k' >= k => Snap(m, k') >= Snap(m, k)]_vars
Idempotent == IF Fixed(m) THEN Nearest(m, Snap(m, k) * Gn(m), Gd(m)) = Snap(m, k) ELSE Snap(m, Snap(m, k)) = Snap(m, k)
Close == Fixed(m) => LET d == k * Gd(m) - 8 * Snap(m, k) * Gn(m) IN -8 * Gn(m) <= 2 * d /\ 2 * d < 8 * Gn(m)
SingleClose == m[1] = "S" => /\ Abs(k) < 16777216 => Snap(m, k) = k
                             /\ Single(-k) = -Single(k)
                             /\ Abs(Snap(m, k) - k) * 16777216 <= Abs(k)

(* ------------------------------ conformance ----------------------------- *)
Query(op, a) == CASE op = "snap" -> Shown(a[1], a[2])
                  [] op = "beside" -> Beside(a[1], a[2], a[3])
                  \* grid points so far out that no value lies between them, counted from the 2^52nd: already snapped
                  [] op = "far" -> a[2]
                  \* a value near the largest of all doubles (an enormous unit): as precise as it can be, within rounding
                  [] op = "huge" -> <<"q", a[2], 1>>
                  [] op = "coord" -> <<Shown(a[1], a[2]), Shown(a[1], a[3])>>
                  [] op = "facts" -> Facts(a[1])
                  [] op = "digits" -> OneOf(Digits(a[1]))
                  [] op = "equal" -> IF Comparable(a[1], a[2]) THEN Equal(a[1], a[2]) ELSE "*"
                  [] op = "cmp" -> Compare(a[1], a[2])
Q(op, a) == Step(op, a, Query(op, a))
EmitCases == /\ Emit(<<Q("snap", <<m, k>>), Q("coord", <<m, k, -k>>)>>)
             /\ Fixed(m) => Emit(<<Q("beside", <<m, k, -1>>), Q("beside", <<m, k, 1>>)>>)
             /\ Fixed(m) /\ TwoScale(m) => Emit(<<Q("far", <<m, k>>)>>)
             /\ Fixed(m) => Emit(<<Q("huge", <<m, ((k * 7919) % 2000001) - 1000000>>)>>)
             /\ (k \in -Top..(2 - Top) /\ m[1] \in {"X", "G"}) => \A b \in {1000, 10000000, 16777216, 100000000, 536870913, 999999998} : LET c == <<m[1], b + k + Top, 1>> IN
                  Emit(<<Q("equal", <<c, <<m[1], b, 1>>>>), Q("equal", <<<<m[1], b + 1, 1>>, c>>), Q("facts", <<c>>), Q("cmp", <<c, m>>)>> \o (IF m[1] = "X" THEN <<Q("digits", <<c>>)>> ELSE <<>>))
             /\ k = -Top => \A p \in Models : Emit(<<Q("equal", <<m, p>>), Q("cmp", <<m, p>>), Q("facts", <<m>>), Q("digits", <<m>>)>>)
=============================================================================
