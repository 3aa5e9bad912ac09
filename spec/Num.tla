-------------------------------- MODULE Num --------------------------------
(* Numeric helpers.  An index walks along the whole numbers, a low           *)
(* discrepancy sequence walks through the unit interval in steps of a / d.    *)
EXTENDS Lat
CONSTANTS N, D              \* walk over -N..N; denominators up to D
VARIABLES x, m, t, k        \* the index and the modulus; the sequence and its step count
vars == <<x, m, t, k>>

(* smallest whole number not below n / d *)
Ceil(n, d) == CHOOSE z \in -Abs(n)..Abs(n) :
   IF d > 0 THEN z * d >= n /\ (z - 1) * d < n ELSE z * d <= n /\ (z - 1) * d > n
Clamp(v, lo, hi) == IF v < lo THEN lo ELSE IF v > hi THEN hi ELSE v
(* indices from 0 on are taken modulo m; negative ones count back from m *)
Wrap(v, n) == IF v >= 0 THEN v % n ELSE n - ((-v) % n)
SeqMax(s) == CHOOSE v \in {s[i] : i \in DOMAIN s} : \A i \in DOMAIN s : s[i] <= v
SeqMin(s) == CHOOSE v \in {s[i] : i \in DOMAIN s} : \A i \in DOMAIN s : s[i] >= v
(* t = <<a, d, c>>: at c / d, in steps of a / d *)
Step1(s) == <<s[1], s[2], (s[3] + s[1]) % s[2]>>

Init == /\ x = -N /\ m \in 1..D
        /\ t \in {<<a, d, c>> : a \in 0..(2 * D), d \in 1..D, c \in 0..(D - 1)} /\ t[3] < t[2] /\ k = 0
        /\ (t = <<0, 1, 0>> \/ m = 1)
Walk == x < N /\ t = <<0, 1, 0>> /\ x' = x + 1 /\ UNCHANGED <<m, t, k>>
Draw == k < 4 /\ m = 1 /\ x = -N /\ t' = Step1(t) /\ k' = k + 1 /\ UNCHANGED <<x, m>>
Next == Walk \/ Draw
Spec == Init /\ [][Next]_vars

(* ------------------------------ properties ------------------------------ *)
InRange == /\ Wrap(x, m) \in 0..m /\ (Wrap(x, m) - x) % m = 0 /\ (x >= 0 => Wrap(x, m) < m)
           /\ t[3] \in 0..(t[2] - 1)
Clamped == \A lo \in {-3, 0}, hi \in {0, 4} : LET c == Clamp(x, lo, hi) IN c \in lo..hi /\ Clamp(c, lo, hi) = c /\ (x \in lo..hi => c = x)
CeilRight == /\ Ceil(x, m) = -((-x) \div m) /\ Ceil(-x, -m) = Ceil(x, m) /\ Ceil(x * m, m) = x
(* the next index wraps to the next place or starts again *)
Onward == [][x' = x + 1 => Wrap(x, m)' \in {Wrap(x, m) + 1, 0, 1}]_vars

(* ------------------------------ conformance ----------------------------- *)
RECURSIVE Fact(_)
Fact(n) == IF n = 0 THEN 1 ELSE n * Fact(n - 1)
RECURSIVE Run(_, _)
Run(s, n) == IF n = 0 THEN <<>> ELSE LET u == Step1(s) IN <<<<"any", <<"q", u[3], u[2]>>, IF u[3] = 0 THEN <<"q", 1, 1>> ELSE <<"q", u[3], u[2]>> >>>> \o Run(u, n - 1)
Query(op, a) ==
  CASE op = "clamp" -> <<Clamp(a[1], a[2], a[3]), Clamp(a[1], a[2], a[3]), Min2(a[1], a[3])>>
    [] op = "ceil" -> Ceil(a[1], a[2])
    [] op = "wrap" -> Wrap(a[1], a[2])
    [] op = "mean" -> <<"q", a[1] + a[2], 2>>
    [] op = "ends" -> <<SeqMax(SubSeq(a[1], 1, 3)), SeqMax(a[1]), SeqMin(a[1])>>
    [] op = "near" -> Bit(Abs(a[1] - a[2]) <= a[3])
    [] op = "quasi" -> Run(a[1], a[2])
    [] op = "phi" -> 1
    \* every order of a few numbers comes out in the end, and of many numbers each reaches each place
    [] op = "orders" -> Fact(a[1])
    [] op = "reaches" -> a[1]
    [] op = "shuffle" -> [i \in 1..a[1] |-> i - 1]
S(op, a) == Step(op, a, Query(op, a))
EmitCases ==
  /\ t = <<0, 1, 0>> => /\ Emit(<<S("wrap", <<x, m>>), S("ceil", <<x, m>>), S("ceil", <<x, -m>>), S("mean", <<x, m>>)>>)
                        /\ \A lo \in -2..2, hi \in -2..5 : lo <= hi => Emit(<<S("clamp", <<x, lo, hi>>)>>)
                        /\ \A y \in -3..3 : Emit(<<S("near", <<x, y, m - 1>>)>>)
                        /\ Emit(<<S("shuffle", <<Abs(x)>>)>>)
                        /\ (m = 1 /\ x \in 0..4) => Emit(<<S("orders", <<x>>)>>)
                        /\ (m = 1 /\ x >= 5) => Emit(<<S("reaches", <<x, x \div 2>>)>>) /\ Emit(<<S("reaches", <<3 * x, 0>>)>>) /\ Emit(<<S("reaches", <<3 * x, x - 1>>)>>)
                        /\ \A y, z \in -1..1 : Emit(<<S("ends", <<<<x, y, z, m - 3>>>>), S("ends", <<<<y, z, m - 3, x>>>>), S("ends", <<<<y, x, z, 0>>>>), S("ends", <<<<0, y, x, z>>>>)>>)
  /\ k = 0 => Emit(<<S("quasi", <<t, 9>>)>>)
=============================================================================
