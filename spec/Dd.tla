--------------------------------- MODULE Dd ---------------------------------
(* Extended precision numbers.  A number is a polynomial in an infinitely    *)
(* small positive e, given by its coefficients from the constant up; the      *)
(* harness replaces e by many different powers of two.  Arithmetic is that    *)
(* of polynomials and the order is lexicographic.                             *)
EXTENDS Lat
CONSTANTS M, Which       \* histories of M operations with the given operands
VARIABLES hist, reg
vars == <<hist, reg>>
Vals == {<<<<>>, <<1>>, <<0, 1>>, <<1, -1>>, <<-3, 0, 1>>, <<2, 1, -1>>, <<0, 0, -5>>>>[i] : i \in Which}

C(x, i) == IF i <= Len(x) THEN x[i] ELSE 0
RECURSIVE Trim(_)
Trim(x) == IF x = <<>> THEN x ELSE IF x[Len(x)] = 0 THEN Trim(SubSeq(x, 1, Len(x) - 1)) ELSE x
Add(x, y) == Trim([i \in 1..Max2(Len(x), Len(y)) |-> C(x, i) + C(y, i)])
Neg(x) == [i \in DOMAIN x |-> -x[i]]
Sub(x, y) == Add(x, Neg(y))
Mul(x, y) == Trim([i \in 1..(Len(x) + Len(y)) |-> SumTo(LAMBDA k_ : C(x, k_) * C(y, i + 1 - k_), i)])
RECURSIVE Sign(_)
Sign(x) == IF x = <<>> THEN 0 ELSE IF x[1] # 0 THEN Sgn(x[1]) ELSE Sign(Tail(x))
Cmp(x, y) == Sign(Sub(x, y))
AbsP(x) == IF Sign(x) < 0 THEN Neg(x) ELSE x
RECURSIVE Pow(_, _)
Pow(x, n) == IF n = 0 THEN <<1>> ELSE Mul(x, Pow(x, n - 1))
Det(x, y, z, w) == Sub(Mul(x, w), Mul(y, z))

(* whole numbers: the coefficient j counts halves of the unit, those before it (powers of 1/e) are *)
(* whole numbers anyway, those after it are less than any whole                                  *)
Rest(x, j) == Sign(SubSeq(x, j + 1, Len(x)))
Pad(x, j) == [i \in 1..Max2(Len(x), j) |-> C(x, i)]
Floor(x, j) == LET y == Pad(x, j)  h == y[j] IN
  Trim([i \in 1..j |-> IF i < j THEN y[i] ELSE IF h % 2 = 0 /\ Rest(y, j) < 0 THEN (h \div 2) - 1 ELSE h \div 2])
Ceil(x, j) == Neg(Floor(Neg(x), j))
Rint(x, j) == LET y == Pad(x, j) IN Floor([y EXCEPT ![j] = @ + 1], j)
Trunc(x, j) == IF Sign(x) < 0 THEN Ceil(x, j) ELSE Floor(x, j)

Apply(x, u) ==
  CASE u[1] = "set" -> u[2]  [] u[1] = "add" -> Add(x, u[2])  [] u[1] = "sub" -> Sub(x, u[2])
    [] u[1] = "mul" -> Mul(x, u[2])  [] u[1] = "neg" -> Neg(x)  [] u[1] = "abs" -> AbsP(x)
    [] u[1] = "sqr" -> Mul(x, x)  [] u[1] = "pow" -> Pow(x, u[2])
Ups == {<<o, v>> : o \in {"add", "sub", "mul"}, v \in Vals} \cup {<<"neg">>, <<"abs">>, <<"sqr">>, <<"pow", 3>>}
Fits(x) == Len(x) <= 6 /\ \A i \in DOMAIN x : Abs(x[i]) <= 500

(* ------------------------------ behaviours ------------------------------ *)
Init == \E v \in Vals : hist = <<<<"set", v>>>> /\ reg = Trim(v)
Next == Len(hist) < M /\ \E u \in Ups : Fits(Apply(reg, u)) /\ hist' = Append(hist, u) /\ reg' = Apply(reg, u)
Spec == Init /\ [][Next]_vars

(* ------------------------------ properties ------------------------------ *)
Trimmed == reg = Trim(reg)
Order == \A v \in Vals : LET y == Trim(v) IN
   /\ Cmp(reg, y) = -Cmp(y, reg) /\ (Cmp(reg, y) = 0 <=> reg = y)
   /\ \A z_ \in Vals : (Cmp(reg, y) <= 0 /\ Cmp(y, z_) <= 0) => Cmp(reg, z_) <= 0
   /\ Sign(Mul(reg, y)) = Sign(reg) * Sign(y)
Ring == \A v \in Vals : Sub(Add(reg, v), v) = reg /\ Mul(reg, Add(v, <<1>>)) = Add(Mul(reg, v), reg)
(* the floor is the largest whole number that is not larger (everything in halves) *)
Twice(x) == Trim([i \in DOMAIN x |-> 2 * x[i]])
Whole == \A j \in 1..2 : LET y == Pad(reg, j)  h == [i \in DOMAIN y |-> IF i = j THEN y[j] ELSE 2 * y[i]]
      up(x) == Trim([i \in 1..j |-> IF i = j THEN C(x, i) + 1 ELSE C(x, i)]) IN
   /\ Cmp(Twice(Floor(reg, j)), h) <= 0 /\ Cmp(Twice(up(Floor(reg, j))), h) > 0
   /\ Cmp(Twice(Ceil(reg, j)), h) >= 0 /\ Cmp(AbsP(Twice(Trunc(reg, j))), AbsP(h)) <= 0

(* ------------------------------ conformance ----------------------------- *)
P(x) == <<"poly">> \o Trim(x)
RECURSIVE Order10(_)
Order10(n) == IF n < 10 THEN 0 ELSE 1 + Order10(n \div 10)
Query(op, x) ==
  CASE op = "cmp" -> LET k == Cmp(x[1], x[2]) IN
         <<k, Bit(k > 0), Bit(k >= 0), Bit(k < 0), Bit(k <= 0), Bit(k = 0), P(IF k <= 0 THEN x[1] ELSE x[2]), P(IF k >= 0 THEN x[1] ELSE x[2])>>
    [] op = "kind" -> LET k == Sign(x[1]) IN <<k, Bit(k = 0), Bit(k < 0), Bit(k > 0), P(AbsP(x[1])), P(Neg(x[1])), 0>>
    [] op = "whole" -> <<P(Floor(x[1], x[2])), P(Ceil(x[1], x[2])), P(Rint(x[1], x[2])), P(Trunc(x[1], x[2]))>>
    [] op = "two" -> <<P(Add(x[1], x[2])), P(Sub(x[1], x[2])), P(Mul(x[1], x[2]))>>
    [] op = "div" -> IF Sign(x[2]) = 0 THEN "*" ELSE <<"ratio", Trim(x[1]), Trim(x[2])>>
    [] op = "recip" -> IF Sign(x[1]) = 0 THEN "*" ELSE <<"ratio", <<1>>, Trim(x[1])>>
    [] op = "pow" -> IF x[2] >= 0 THEN P(Pow(x[1], x[2])) ELSE IF Sign(x[1]) = 0 THEN "*" ELSE <<"ratio", <<1>>, Pow(x[1], -x[2])>>
    [] op = "root" -> IF Sign(x[1]) < 0 THEN "NaN" ELSE <<"root", Trim(x[1])>>
    [] op = "det" -> P(Det(x[1], x[2], x[3], x[4]))
    [] op = "int" -> x[1]
    [] op = "nan" -> [i \in 1..23 |-> "NaN"]
    \* pi, 2 pi, pi / 2 and e, each to 104 bits: how many of them are
    [] op = "const" -> 4
    [] op = "magnitude" -> Order10(x[1]) + x[2]
S(op, x) == Step(op, x, Query(op, x))
RECURSIVE Hist(_, _, _)
Hist(x, h, i) == IF i > Len(h) THEN <<>> ELSE LET y == Trim(Apply(x, h[i])) IN <<Step("up", h[i], P(y))>> \o Hist(y, h, i + 1)
EmitCases ==
  /\ Len(hist) = M => Emit(Hist(<<>>, hist, 1))
  /\ Len(hist) = 1 => Emit(<<S("const", <<>>)>>)
  /\ Len(hist) = 2 => /\ \A j \in 1..2 : Emit(<<S("whole", <<Pad(reg, 3), j>>)>>)
                      /\ Emit(<<S("kind", <<reg>>), S("root", <<reg>>), S("recip", <<reg>>), S("pow", <<reg, 2>>), S("pow", <<reg, -3>>)>>)
                      /\ \A v \in Vals : Emit(<<S("cmp", <<reg, v>>), S("two", <<reg, v>>), S("div", <<v, reg>>), S("div", <<reg, v>>)>>)
  /\ Len(hist) = 1 => /\ \A v, z \in Vals : Emit(<<S("det", <<reg, v, z, <<2, 1>> >>)>>)
                      /\ Emit(<<S("nan", <<reg>>)>>)
                      /\ \A n \in {1, 2, 5, 9, 12, 99, 123456}, k \in {-5, -1, 0, 1, 2, 3, 5, 6, 7, 9, 13, 15, 22} : (k \in {0, 1, 7} \/ (n = 1 /\ k > 0) \/ (k < 0 /\ n \in {2, 5, 12})) => Emit(<<S("magnitude", <<n, k>>), S("int", <<n - 40>>)>>)
=============================================================================
