-------------------------------- MODULE Vec --------------------------------
(* Vectors in the plane and in space, and square linear systems.  A register *)
(* vector goes through a history of operations; a system is rearranged by row *)
(* operations, which leave its solution alone.                                *)
EXTENDS Lat
CONSTANTS M, N, Rank        \* histories of M operations on vectors in -N..N; systems of order Rank (0: none)
VARIABLES hist, reg, sys
vars == <<hist, reg, sys>>
V == {<<x, y>> : x \in -N..N, y \in -N..N}

(* ------------------------------- vectors -------------------------------- *)
Add(u, v) == [i \in DOMAIN u |-> u[i] + v[i]]
Sub(u, v) == [i \in DOMAIN u |-> u[i] - v[i]]
Mul(u, k) == [i \in DOMAIN u |-> u[i] * k]
Inner(u, v) == SumTo(LAMBDA i_ : u[i_] * v[i_], Len(u))
Outer(u, v) == u[1] * v[2] - u[2] * v[1]
L2(u) == Inner(u, u)
RECURSIVE Quarter(_, _)
Quarter(u, k) == IF k % 4 = 0 THEN u ELSE Quarter(<<-u[2], u[1]>>, (k % 4) - 1)
Unit(u) == [i \in DOMAIN u |-> IF L2(u) = 0 THEN 0 ELSE <<"plus", 0, Sgn(u[i]), u[i] * u[i], L2(u)>>]
(* turned by k eighths: whole, or a multiple of the square root of one half *)
Eighths(u, k) == IF k % 2 = 0 THEN [i \in 1..2 |-> <<"plus", 0, Quarter(u, k \div 2)[i], 1, 1>>]
                 ELSE LET a == Quarter(u, k \div 2) IN <<<<"plus", 0, a[1] - a[2], 1, 2>>, <<"plus", 0, a[1] + a[2], 1, 2>>>>
Apply(u, s) ==
  CASE s[1] = "set" -> s[2] [] s[1] = "add" -> Add(u, s[2]) [] s[1] = "sub" -> Sub(u, s[2]) [] s[1] = "mul" -> Mul(u, s[2])
    [] s[1] = "neg" -> Mul(u, -1) [] s[1] = "quarter" -> Quarter(u, s[2]) [] s[1] = "move" -> Add(s[2], u)
    [] s[1] = "from" -> Sub(u, s[2])

(* ------------------------------- systems -------------------------------- *)
(* a system is <<matrix as a sequence of rows, right hand side>> *)
Minor(a, j) == [r \in 1..(Len(a) - 1) |-> [c \in 1..(Len(a) - 1) |-> a[r + 1][IF c < j THEN c ELSE c + 1]]]
RECURSIVE Det(_)
Det(a) == IF a = <<>> THEN 1 ELSE SumTo(LAMBDA j_ : (IF j_ % 2 = 1 THEN 1 ELSE -1) * a[1][j_] * Det(Minor(a, j_)), Len(a))
Column(a, b, j) == [r \in DOMAIN a |-> [a[r] EXCEPT ![j] = b[r]]]
Solution(a, b) == [j \in DOMAIN a |-> <<Det(Column(a, b, j)), Det(a)>>]
Product(a, x) == [r \in DOMAIN a |-> Inner(a[r], x)]
(* systems whose elimination involves no rounding: singularity has to be noticed there *)
Plain(a) == \/ Len(a) = 1 \/ (Len(a) <= 3 /\ \A r, c \in DOMAIN a : Abs(a[r][c]) <= 1)
            \/ \E c \in DOMAIN a : \A r \in DOMAIN a : a[r][c] = 0
            \/ \E r, t \in DOMAIN a : r # t /\ a[r] = a[t]

(* ------------------------------ behaviours ------------------------------ *)
Ops == {<<o, <<x, y>>>> : o \in {"add", "sub", "move", "from"}, x \in {0, 2}, y \in {-1, 1}} \cup {<<"mul", 2>>, <<"mul", -3>>, <<"neg">>}
        \cup {<<"quarter", k>> : k \in -5..5}
Entry == -1..1
None == <<>>
Init == \/ hist = <<>> /\ reg \in V /\ sys = None /\ Rank = 0
        \/ Rank > 0 /\ hist = <<>> /\ reg = <<0, 0>> /\ sys \in [1..Rank -> [1..Rank -> Entry]] \X {[i \in 1..Rank |-> i * i - 2]}
VNext == sys = None /\ Len(hist) < M /\ \E s \in Ops : hist' = Append(hist, s) /\ reg' = Apply(reg, s) /\ UNCHANGED sys
Swap(i, j) == sys' = <<[r \in DOMAIN sys[1] |-> sys[1][IF r = i THEN j ELSE IF r = j THEN i ELSE r]],
                       [r \in DOMAIN sys[2] |-> sys[2][IF r = i THEN j ELSE IF r = j THEN i ELSE r]]>>
(* subtract one row from another, as long as the entries stay small *)
Less(i, j) == /\ sys' = <<[sys[1] EXCEPT ![i] = Sub(sys[1][i], sys[1][j])], [sys[2] EXCEPT ![i] = @ - sys[2][j]]>>
              /\ \A c \in 1..Rank : Abs(sys'[1][i][c]) <= 1
              /\ Abs(sys'[2][i]) <= 9
SNext == sys # None /\ (\E i, j \in 1..Rank : i < j /\ (Swap(i, j) \/ Less(i, j) \/ Less(j, i))) /\ UNCHANGED <<hist, reg>>
Next == VNext \/ (SNext /\ M > 0)
Spec == Init /\ [][Next]_vars

(* ------------------------------ properties ------------------------------ *)
VectorLaws == sys = None => \A v \in {<<2, 1>>, <<-1, 3>>, reg} :
   /\ Inner(reg, v) * Inner(reg, v) + Outer(reg, v) * Outer(reg, v) = L2(reg) * L2(v)
   /\ Sub(Add(reg, v), v) = reg /\ L2(Quarter(reg, 1)) = L2(reg) /\ Inner(Quarter(reg, 1), reg) = 0
   /\ Quarter(Quarter(reg, 3), -3) = reg /\ Quarter(reg, 2) = Mul(reg, -1)
   /\ Outer(Quarter(reg, 1), Quarter(v, 1)) = Outer(reg, v)
Solves == sys # None => LET a == sys[1]  b == sys[2]  d == Det(a)  s == Solution(a, b) IN
   d # 0 => Product(a, [j \in DOMAIN s |-> s[j][1]]) = Mul(b, d)
SameSolution == [][sys # None => /\ Abs(Det(sys'[1])) = Abs(Det(sys[1]))
   /\ \A j \in 1..Rank : Solution(sys'[1], sys'[2])[j][1] * Det(sys[1]) = Solution(sys[1], sys[2])[j][1] * Det(sys'[1])]_vars

(* ------------------------------ conformance ----------------------------- *)
Query(op, x) ==
  CASE op = "one" -> LET u == x[1] IN <<<<"sqrt", L2(u), 1>>, L2(u), Unit(u), Mul(u, -1), IF u = <<0, 0>> THEN "*" ELSE <<"ang", u[2], u[1]>>, u, u>>
    [] op = "pair" -> LET u == x[1]  v == x[2]  z == L2(u) = 0 \/ L2(v) = 0 IN
         <<Add(u, v), Sub(u, v), Inner(u, v), <<"sqrt", L2(Sub(u, v)), 1>>, Bit(Outer(u, v) = 0), Bit(u = v),
           IF z THEN "*" ELSE <<"ang", Abs(Outer(u, v)), Inner(u, v)>>, IF z THEN "*" ELSE <<"ang", Outer(u, v), Inner(u, v)>>,
           [i \in 1..2 |-> <<"q", u[i] + v[i], 2>>], Add(v, u)>>
    \* next to parallel: (B + a, B + b) and (B + c, B + d), where a + d = b + c and B is huge
    [] op = "close" -> LET z == Bit((x[1] - x[2]) * (x[1] - x[3]) = 0) IN <<z, z>>
    [] op = "scale" -> LET u == x[1] IN <<[i \in 1..2 |-> <<"q", u[i] * x[2], x[3]>>], IF x[2] = 0 THEN "*" ELSE [i \in 1..2 |-> <<"q", u[i] * x[3], x[2]>>]>>
    [] op = "wsum" -> [i \in 1..2 |-> <<"q", x[3] * x[1][i] + (x[4] - x[3]) * x[2][i], x[4]>>]
    [] op = "turn" -> <<Quarter(x[1], x[2]), Eighths(x[1], x[2])>>
    [] op = "space" -> LET u == x[1]  v == x[2] IN
         <<Add(u, v), Sub(u, v), Inner(u, v), Inner(u, v), <<"sqrt", L2(u), 1>>, <<"sqrt", L2(u), 1>>, Unit(u), IF L2(u) = 0 THEN "*" ELSE Unit(u),
           [i \in 1..3 |-> <<"q", u[i], x[3]>>], Bit(u = v), u>>
    [] op = "dot4" -> Inner(Sub(x[2], x[1]), Sub(x[4], x[3]))
    [] op = "solve" -> LET a == x[1] IN
         IF Det(a) # 0 THEN LET s == Solution(a, x[2]) IN [j \in DOMAIN s |-> <<"q", s[j][1], s[j][2]>>]
         ELSE IF Plain(a) THEN "none" ELSE "*"
    \* coefficients of zero replaced by next to nothing
    [] op = "dust" -> LET a == x[1] IN IF Det(a) = 0 THEN "*" ELSE LET s == Solution(a, x[2]) IN [j \in DOMAIN s |-> <<"q", s[j][1], s[j][2]>>]
    [] op = "odd" -> "none"
    [] op = "rows" -> LET a == x[1]  i == x[3] + 1  j == x[4] + 1 IN
         <<[a EXCEPT ![i] = a[j], ![j] = a[i]], [x[2] EXCEPT ![i] = x[2][j], ![j] = x[2][i]]>>
S(op, x) == Step(op, x, Query(op, x))
RECURSIVE Hist(_, _, _)
Hist(u, h, i) == IF i > Len(h) THEN <<>> ELSE LET v == Apply(u, h[i]) IN <<Step("up", h[i], v)>> \o Hist(v, h, i + 1)
EmitCases ==
  IF sys = None
  THEN IF hist = <<>> THEN /\ Emit(<<S("one", <<reg>>)>>)
                           /\ \A v \in V : /\ Emit(<<S("pair", <<reg, v>>)>>)
                                           /\ \A z, y \in 0..2 : Emit(<<S("space", <<reg \o <<z>>, v \o <<-y>>, y + 2>>), S("dot4", <<reg \o <<z>>, v \o <<y>>, <<1, 0, z>>, <<0, z, y>> >>)>>)
                                           /\ \A k \in {0, 7, 27, 30, 45} : Emit(<<S("close", <<reg[1], reg[2], v[1], k>>)>>)
                                           /\ Emit(<<S("wsum", <<reg, v, v[1], 2>>), S("wsum", <<reg, v, v[2], 3>>)>>)
                           /\ \A k \in -8..8 : Emit(<<S("turn", <<reg, k>>), S("scale", <<reg, k, 3>>), S("scale", <<reg, k, 4>>)>>)
       ELSE Len(hist) = M => Emit(Hist(<<0, 0>>, <<<<"set", <<1, 2>> >>>> \o hist, 1))
  ELSE /\ Emit(<<S("solve", sys), S("dust", sys)>>)
       /\ Emit(<<S("rows", <<sys[1], sys[2], 0, Rank - 1>>), S("rows", <<sys[1], sys[2], Rank - 1, Rank - 1>>)>>)
       /\ Emit(<<S("odd", <<Tail(sys[1]), sys[2]>>), S("odd", <<sys[1], Append(sys[2], 1)>>),
                  S("odd", <<[r \in DOMAIN sys[1] |-> Append(sys[1][r], r)], sys[2]>>), S("odd", <<[r \in DOMAIN sys[1] |-> Tail(sys[1][r])], sys[2]>>)>>)
=============================================================================
