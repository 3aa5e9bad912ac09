-------------------------------- MODULE Oct ---------------------------------
(* Octagons bounded in x, y, x+y and x-y.  A bound is <<m, n>> = m + n*sqrt2 *)
(* because expanding by d moves the diagonal bounds by d*sqrt2.              *)
(* An octagon is <<>> (null) or                                              *)
(* <<minx, maxx, miny, maxy, mina, maxa, minb, maxb>>.                       *)
EXTENDS Lat
CONSTANTS N, M
VARIABLES mode, hist, oct, seen, pa, pb
vars == <<mode, hist, oct, seen, pa, pb>>

(* sign of m + n*sqrt2 *)
SgnR(m, n) == IF m >= 0 /\ n >= 0 THEN Sgn(m + n) ELSE IF m <= 0 /\ n <= 0 THEN Sgn(m + n)
              ELSE IF m > 0 THEN Sgn(m * m - 2 * n * n) ELSE Sgn(2 * n * n - m * m)
CmpR(u, v) == SgnR(u[1] - v[1], u[2] - v[2])
MinR(u, v) == IF CmpR(v, u) < 0 THEN v ELSE u
MaxR(u, v) == IF CmpR(v, u) > 0 THEN v ELSE u

Null == <<>>
OfPt(p) == LET a == p[1] + p[2]  b == p[1] - p[2] IN
  << <<p[1], 0>>, <<p[1], 0>>, <<p[2], 0>>, <<p[2], 0>>, <<a, 0>>, <<a, 0>>, <<b, 0>>, <<b, 0>> >>
Join(o, q) == IF o = Null THEN q ELSE IF q = Null THEN o
              ELSE [k \in 1..8 |-> IF k % 2 = 1 THEN MinR(o[k], q[k]) ELSE MaxR(o[k], q[k])]
RECURSIVE OfPts(_)
OfPts(ps) == IF ps = <<>> THEN Null ELSE Join(OfPt(ps[1]), OfPts(Tail(ps)))
Grow(o, d) ==
  IF o = Null THEN o
  ELSE LET g == [k \in 1..8 |-> LET s == IF k % 2 = 1 THEN -d ELSE d IN IF k <= 4 THEN <<o[k][1] + s, o[k][2]>> ELSE <<o[k][1], o[k][2] + s>>]
       IN IF \A k \in {1, 3, 5, 7} : CmpR(g[k], g[k + 1]) <= 0 THEN g ELSE Null
Corners(e) == IF e = <<>> THEN <<>> ELSE << <<e[1], e[3]>>, <<e[1], e[4]>>, <<e[2], e[3]>>, <<e[2], e[4]>> >>

(* mutations; points are remembered as long as only points were included *)
PtsOf(m) == CASE m[1] = "pt" -> <<m[2]>> [] m[1] \in {"line", "oct"} -> m[2] [] m[1] = "env" -> Corners(m[2]) [] OTHER -> <<>>
Apply(o, m) == CASE m[1] = "null" -> Null
                 [] m[1] = "by" -> Grow(o, m[2])
                 [] OTHER -> Join(o, OfPts(PtsOf(m)))
Muts == { <<"null">>, <<"pt", <<1, 0>> >>, <<"pt", <<-2, 3>> >>, <<"pt", <<0, 0>> >>, <<"line", <<>> >>,
          <<"line", << <<2, 2>>, <<0, -3>>, <<2, 2>> >> >>, <<"oct", <<>> >>, <<"oct", << <<1, 4>>, <<3, -1>> >> >>,
          <<"env", <<>> >>, <<"env", <<-1, 2, 0, 1>> >>, <<"by", 1>>, <<"by", -1>>, <<"by", 3>>, <<"by", -2>>, <<"by", 0>> }

Grid == (0..N) \X (0..N)
Small == {<<>>} \cup {<<p>> : p \in Grid} \cup {<<p, q>> : p \in Grid, q \in Grid}
Init == \/ mode = "hist" /\ hist = <<>> /\ oct = Null /\ seen = {} /\ pa = <<>> /\ pb = <<>>
        \/ mode = "pair" /\ hist = <<>> /\ oct = Null /\ seen = {} /\ pa \in Small /\ pb \in Small
Next == /\ mode = "hist" /\ Len(hist) < M
        /\ \E m \in Muts :
             /\ hist' = Append(hist, m) /\ oct' = Apply(oct, m)
             /\ seen' = IF oct' = Null THEN {} ELSE seen \cup {PtsOf(m)[i] : i \in DOMAIN PtsOf(m)}
        /\ UNCHANGED <<mode, pa, pb>>
Spec == Init /\ [][Next]_vars

(* ------------------------------ properties ------------------------------ *)
NoGrow == \A i \in DOMAIN hist : hist[i][1] # "by"
Tight == (mode = "hist" /\ NoGrow) =>
  IF seen = {} THEN oct = Null
  ELSE /\ oct[1] = <<SetMin({p[1] : p \in seen}), 0>> /\ oct[4] = <<SetMax({p[2] : p \in seen}), 0>>
       /\ oct[5] = <<SetMin({p[1] + p[2] : p \in seen}), 0>> /\ oct[8] = <<SetMax({p[1] - p[2] : p \in seen}), 0>>
Ordered == oct = Null \/ \A k \in {1, 3, 5, 7} : CmpR(oct[k], oct[k + 1]) <= 0
HasPt(o, p) == o # Null /\ \A k \in {1, 3, 5, 7} : CmpR(o[k], OfPt(p)[k]) <= 0 /\ CmpR(OfPt(p)[k], o[k + 1]) <= 0
Meets(o, q) == o # Null /\ q # Null /\ \A k \in {1, 3, 5, 7} : CmpR(o[k], q[k + 1]) <= 0 /\ CmpR(q[k], o[k + 1]) <= 0
Contains(o, q) == o # Null /\ q # Null /\ Join(o, q) = o
Sound == mode = "pair" => LET A == OfPts(pa)  B == OfPts(pb) IN
  /\ \A i \in DOMAIN pa : HasPt(A, pa[i])
  /\ Contains(A, B) => (B # Null /\ \A i \in DOMAIN pb : HasPt(A, pb[i]))
  /\ (\E i \in DOMAIN pa, j \in DOMAIN pb : pa[i] = pb[j]) => Meets(A, B)
  /\ Meets(A, B) = Meets(B, A)

(* ------------------------------ conformance ----------------------------- *)
Obs(o) == IF o = Null THEN <<"null">> ELSE [k \in 1..8 |-> IF o[k][2] = 0 THEN o[k][1] ELSE <<"r2", o[k][1], o[k][2]>>]
(* an irrational bound that must equal another value exactly is not observable in floating point *)
Tie(u, v) == u = v /\ u[2] # 0
RECURSIVE Hist(_, _, _, _)
(* g: sums with sqrt2 happened before *)
Hist(o, h, i, g) ==
  IF i > Len(h) THEN <<>>
  ELSE LET q == Apply(o, h[i])
           d == IF h[i][1] = "by" THEN h[i][2] ELSE 0
           raw == IF o = Null THEN o ELSE [k \in 1..8 |-> IF k <= 4 THEN o[k] ELSE <<o[k][1], o[k][2] + (IF k % 2 = 1 THEN -d ELSE d)>>]
           amb == g /\ d # 0 /\ o # Null /\ (raw[5] = raw[6] \/ raw[7] = raw[8]) IN
       IF amb THEN <<>>           \* degenerate again after rounding: undecided, the behaviour ends here
       ELSE <<Step("mut", h[i], IF g \/ d # 0 THEN <<"near", Obs(q)>> ELSE Obs(q))>> \o Hist(q, h, i + 1, g \/ d # 0)
Ask(pA, dA, pB, dB, ps) ==
  LET A == Grow(OfPts(pA), dA)  B == Grow(OfPts(pB), dB)
      tie == A # Null /\ B # Null /\ \E k \in 1..8, m \in 1..8 : (k - 1) \div 2 = (m - 1) \div 2 /\ Tie(A[k], B[m]) IN
  << IF tie THEN "*" ELSE Bit(Meets(A, B)), IF tie THEN "*" ELSE Bit(Contains(A, B)), [i \in DOMAIN ps |-> Bit(HasPt(A, ps[i]))] >>
Query(op, a) == Ask(a[1], a[2], a[3], a[4], a[5])
QP == << <<0, 0>>, <<1, 0>>, <<0, 1>>, <<1, 1>>, <<2, 1>>, <<1, 2>>, <<2, 2>>, <<-1, 0>>, <<0, 3>>, <<3, 1>>, <<2, 0>>, <<0, 2>> >>
EmitCases ==
  IF mode = "hist" THEN Len(hist) = M => Emit(Hist(Null, hist, 1, FALSE))
  ELSE LET a == <<pa, 0, pb, 0, IF Len(pb) < 2 THEN QP ELSE <<>> >> IN
       /\ Emit(<<Step("pair", a, Query("pair", a))>>)
       /\ Len(pb) < 2 => LET c == <<pa, 1, pb, 2, QP>> IN Emit(<<Step("pair", c, Query("pair", c))>>)
=============================================================================
