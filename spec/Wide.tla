-------------------------------- MODULE Wide --------------------------------
(* Points whose ordinates are of incomparable size: polynomials in an           *)
(* infinitely small e (see Dd), so that not even differences of ordinates are  *)
(* doubles.  Turns, rings, meetings and centres are decided by the signs and   *)
(* ratios of polynomials.                                                      *)
EXTENDS Dd
CONSTANTS What, Ords      \* which facts are emitted; the ordinates, by number
VARIABLE pts
wvars == <<pts, vars>>

Palette == << <<>>, <<1>>, <<0, 1>>, <<1, 1>>, <<0, 0, 1>>, <<2>>, <<1, -1>>, <<-1>>, <<0, 3>>, <<0, 2, 1>> >>
Os == {Palette[i] : i \in Ords}
Pts == {<<x, y>> : x \in Os, y \in Os}

DX(p, q) == Sub(q[1], p[1])
DY(p, q) == Sub(q[2], p[2])
CrossP(p, q, r) == Det(DX(p, q), DY(p, q), DX(p, r), DY(p, r))
Turn(p, q, r) == Sign(CrossP(p, q, r))
Lies(x, u, v) == Cmp(u, x) * Cmp(x, v) >= 0
On(p, u, v) == Turn(u, v, p) = 0 /\ Lies(p[1], u[1], v[1]) /\ Lies(p[2], u[2], v[2])
(* 0 inside, 1 on, 2 outside the ring u v t u *)
Where(u, v, t, p) ==
  IF On(p, u, v) \/ On(p, v, t) \/ On(p, t, u) THEN 1
  ELSE LET k == Turn(u, v, t) IN IF k # 0 /\ Turn(u, v, p) = k /\ Turn(v, t, p) = k /\ Turn(t, u, p) = k THEN 0 ELSE 2
(* how two proper segments meet: in nothing, a point, a stretch *)
LexP(p, q) == IF Cmp(p[1], q[1]) # 0 THEN Cmp(p[1], q[1]) ELSE Cmp(p[2], q[2])
MinP(p, q) == IF LexP(p, q) <= 0 THEN p ELSE q
MaxP(p, q) == IF LexP(p, q) >= 0 THEN p ELSE q
Stretch(p, q, r, s) == LexP(MinP(MaxP(p, q), MaxP(r, s)), MaxP(MinP(p, q), MinP(r, s)))
Cross4(p, q, r, s) ==
  LET a == Turn(p, q, r)  b == Turn(p, q, s)  c == Turn(r, s, p)  d == Turn(r, s, q) IN
  IF a = 0 /\ b = 0 /\ c = 0 /\ d = 0 THEN <<Stretch(p, q, r, s) + 1, 0>>
  ELSE <<Bit(a * b <= 0 /\ c * d <= 0), Bit(a * b < 0 /\ c * d < 0)>>
Parallel(p, q, r, s) == Det(DX(p, q), DY(p, q), DX(r, s), DY(r, s)) = <<>>
(* where the lines p q and r s meet: <<x, y, denominator>> *)
Meeting(p, q, r, s) ==
  LET w == Det(DX(p, q), DY(p, q), DX(r, s), DY(r, s))
      t == Det(DX(p, r), DY(p, r), DX(r, s), DY(r, s)) IN
  <<Add(Mul(p[1], w), Mul(t, DX(p, q))), Add(Mul(p[2], w), Mul(t, DY(p, q))), w>>
Two(x) == [i \in DOMAIN x |-> 2 * x[i]]
Sq(x) == Mul(x, x)
CentreP(u, v, t) ==
  LET ax == DX(t, u)  ay == DY(t, u)  bx == DX(t, v)  by == DY(t, v)  p == Add(Sq(ax), Sq(ay))  q == Add(Sq(bx), Sq(by))
      m == Two(Det(ax, ay, bx, by)) IN
  <<Add(Mul(t[1], m), Sub(Mul(p, by), Mul(q, ay))), Add(Mul(t[2], m), Sub(Mul(q, ax), Mul(p, bx))), m>>

(* ------------------------------ behaviours ------------------------------ *)
WInit == pts \in [1..3 -> Pts] /\ hist = <<>> /\ reg = <<>>
WSpec == WInit /\ [][UNCHANGED wvars]_wvars

(* ------------------------------ properties ------------------------------ *)
P1 == pts[1]
P2_ == pts[2]
P3 == pts[3]
TurnLaws == LET k == Turn(P1, P2_, P3) IN
  /\ Turn(P2_, P3, P1) = k /\ Turn(P2_, P1, P3) = -k
  /\ (P1 = P2_ \/ P2_ = P3) => k = 0
  /\ Where(P1, P2_, P3, P1) = 1
CentreFair == LET c == CentreP(P1, P2_, P3)  m == c[3]
    d2(p) == Add(Sq(Sub(c[1], Mul(p[1], m))), Sq(Sub(c[2], Mul(p[2], m)))) IN
  d2(P1) = d2(P2_) /\ d2(P2_) = d2(P3)
MeetingOnBoth == LET o == <<Palette[9], Palette[4]>>  w == Meeting(P1, P2_, P3, o)  m == w[3] IN
  /\ Sub(Mul(DX(P1, P2_), Sub(w[2], Mul(P1[2], m))), Mul(DY(P1, P2_), Sub(w[1], Mul(P1[1], m)))) = <<>>
  /\ Sub(Mul(DX(P3, o), Sub(w[2], Mul(P3[2], m))), Mul(DY(P3, o), Sub(w[1], Mul(P3[1], m)))) = <<>>

(* ------------------------------ conformance ----------------------------- *)
Ratio(n, d) == <<"ratio", Trim(n), Trim(d)>>
WQuery(op, x) ==
  CASE op = "turn" -> Turn(x[1], x[2], x[3])
    [] op = "where" -> <<Where(x[1], x[2], x[3], x[4]), Bit(On(x[4], x[1], x[2]))>>
    [] op = "cross" -> IF x[1] = x[2] \/ x[3] = x[4] THEN "*" ELSE Cross4(x[1], x[2], x[3], x[4])
    [] op = "ccw" -> Bit(Turn(x[1], x[2], x[3]) > 0)
    [] op = "meet" -> IF x[1] = x[2] \/ x[3] = x[4] THEN "*" ELSE IF Parallel(x[1], x[2], x[3], x[4]) THEN "none"
                      ELSE LET m == Meeting(x[1], x[2], x[3], x[4]) IN <<Ratio(m[1], m[3]), Ratio(m[2], m[3])>>
    [] op = "circum" -> LET m == CentreP(x[1], x[2], x[3]) IN IF Trim(m[3]) = <<>> THEN "*" ELSE <<Ratio(m[1], m[3]), Ratio(m[2], m[3])>>
WS(op, x) == Step(op, x, WQuery(op, x))
Fourth == { <<Palette[2], Palette[3]>>, <<Palette[5], Palette[1]>>, <<Palette[4], Palette[7]>> }
EmitWide ==
  /\ \A op \in What \cap {"turn", "ccw", "circum"} : Emit(<<WS(op, <<P1, P2_, P3>>)>>)
  /\ \A op \in What \cap {"where", "cross", "meet"} : \A f \in Fourth : Emit(<<WS(op, <<P1, P2_, P3, f>>)>>)
=============================================================================
