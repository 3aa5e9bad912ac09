------------------------------ MODULE Centroid ------------------------------
(* The centroid of a history of additions of points, lines and polygons.    *)
EXTENDS Ring
CONSTANTS M                \* at most M components
VARIABLES comps, a2, cg, wl, pn
vars == <<comps, a2, cg, wl, pn>>

(* first moments of a ring, times 3 * 2, counter-clockwise positive *)
Mom(r, c) == SumTo(LAMBDA i : (r[i][1] * r[i + 1][2] - r[i + 1][1] * r[i][2]) * (r[i][c] + r[i + 1][c]), Len(r) - 1)
M2(r, c) == IF Len(r) < 2 THEN 0 ELSE Mom(r, c) * Sgn(Area2(r))          \* direction forgotten
A2(r) == IF Len(r) < 2 THEN 0 ELSE Abs(Area2(r))

(* a component is <<kind, body>>: point <<"P", p>>, line <<"L", pts>>, polygon <<"A", rings>> *)
Lines(c) == CASE c[1] = "P" -> <<>> [] c[1] = "L" -> <<c[2]>> [] c[1] = "A" -> c[2]
CompA2(c) == IF c[1] # "A" THEN 0 ELSE A2(c[2][1]) - SumTo(LAMBDA i : A2(c[2][i + 1]), Len(c[2]) - 1)
CompM(c, k) == IF c[1] # "A" THEN 0 ELSE M2(c[2][1], k) - SumTo(LAMBDA i : M2(c[2][i + 1], k), Len(c[2]) - 1)
(* weighted midpoints of a line: <<squared length, 2x, 2y>> *)
RECURSIVE Wts(_, _)
Wts(p, i) == IF i >= Len(p) THEN <<>>
             ELSE IF p[i] = p[i + 1] THEN Wts(p, i + 1)
             ELSE << <<Dist2(p[i], p[i + 1]), p[i][1] + p[i + 1][1], p[i][2] + p[i + 1][2]>> >> \o Wts(p, i + 1)
RECURSIVE CatL(_, _)
CatL(L, i) == IF i > Len(L) THEN <<>> ELSE Wts(L[i], 1) \o CatL(L, i + 1)
(* a line or ring without extent counts as one point *)
PtsOf(c) == IF c[1] = "P" THEN <<c[2]>>
            ELSE LET f(p) == Len(p) > 0 /\ Wts(p, 1) = <<>>  s == SelectSeq(Lines(c), f) IN [i \in DOMAIN s |-> s[i][1]]

Init == comps = <<>> /\ a2 = 0 /\ cg = <<0, 0>> /\ wl = <<>> /\ pn = <<0, 0, 0>>
Include(c) ==
  /\ comps' = Append(comps, c)
  /\ a2' = a2 + CompA2(c)
  /\ cg' = <<cg[1] + CompM(c, 1), cg[2] + CompM(c, 2)>>
  /\ wl' = wl \o CatL(Lines(c), 1)
  /\ LET q == PtsOf(c) IN pn' = <<pn[1] + Len(q), pn[2] + SumTo(LAMBDA i : q[i][1], Len(q)), pn[3] + SumTo(LAMBDA i : q[i][2], Len(q))>>

Sq(a, b) == Cl(<< <<a, a>>, <<b, a>>, <<b, b>>, <<a, b>> >>)
Pool == {
  <<"P", <<3, -1>> >>, <<"P", <<0, 2>> >>,
  <<"L", <<>> >>, <<"L", << <<1, 1>> >> >>, <<"L", << <<2, 3>>, <<2, 3>> >> >>, <<"L", << <<0, 0>>, <<4, 3>> >> >>,
  <<"L", << <<5, 0>>, <<5, 1>>, <<5, 1>>, <<6, 1>>, <<5, 1>> >> >>,
  <<"A", << <<>> >> >>, <<"A", << Sq(0, 4) >> >>, <<"A", << Rev(Sq(0, 6)), Sq(1, 2), Rev(Sq(3, 5)) >> >>,
  <<"A", << Sq(2, 5), Rev(Sq(2, 5)) >> >>,
  <<"A", << Sq(0, 3), <<>>, Sq(1, 1) >> >>,
  <<"A", << Cl(<< <<7, 7>>, <<7, 7>>, <<7, 7>> >>) >> >>,
  <<"A", << Cl(<< <<1, 0>>, <<3, 4>>, <<5, 8>> >>) >> >>,
  <<"A", << Cl(<< <<-5, 2>>, <<-2, 7>>, <<-2, 7>>, <<-7, 9>> >>) >> >> }
Next == Len(comps) < M /\ \E c \in Pool : Include(c)
Spec == Init /\ [][Next]_vars

Cent == IF a2 # 0 THEN <<"pt", cg[1], cg[2], 3 * a2>>
        ELSE IF wl # <<>> THEN <<"wmean">> \o wl
        ELSE IF pn[1] > 0 THEN <<"pt", pn[2], pn[3], pn[1]>>
        ELSE <<"none">>

(* ------------------------------ properties ------------------------------ *)
(* the fold over a history, from any base point *)
RECURSIVE Fold(_, _)
Fold(f(_), s) == IF s = <<>> THEN 0 ELSE f(s[1]) + Fold(f, Tail(s))
OrderFree == LET rev == Rev(comps) IN a2 = Fold(CompA2, rev) /\ cg[1] = Fold(LAMBDA c : CompM(c, 1), rev)
DimensionDominates == (\E i \in DOMAIN comps : comps[i][1] = "A" /\ CompA2(comps[i]) > 0) => a2 > 0
NoneIffEmpty == Cent = <<"none">> <=> \A i \in DOMAIN comps : CatL(Lines(comps[i]), 1) = <<>> /\ PtsOf(comps[i]) = <<>>
(* for each ring of the pool: direction and start do not matter, and translation moves the moments with the area *)
Sh(r, d) == [i \in DOMAIN r |-> <<r[i][1] + d, r[i][2] + d>>]
RingLaws == \A c \in Pool : c[1] = "A" => \A i \in DOMAIN c[2] : LET r == c[2][i] IN
  /\ M2(Rev(r), 1) = M2(r, 1) /\ M2(Rev(r), 2) = M2(r, 2)
  /\ Len(r) > 1 => M2(Cl(Rot(Open(r), 1)), 1) = M2(r, 1)
  /\ M2(Sh(r, 11), 1) = M2(r, 1) + 33 * A2(r)

(* ------------------------------ conformance ----------------------------- *)
RECURSIVE StepsFrom(_, _, _, _, _, _)
CentOf(x2, g, w, n) == IF x2 # 0 THEN <<"pt", g[1], g[2], 3 * x2>> ELSE IF w # <<>> THEN <<"wmean">> \o w
                       ELSE IF n[1] > 0 THEN <<"pt", n[2], n[3], n[1]>> ELSE <<"none">>
StepsFrom(cs, i, x2, g, w, n) ==
  IF i > Len(cs) THEN <<>>
  ELSE LET c == cs[i]  q == PtsOf(c)
           x2n == x2 + CompA2(c)  gn == <<g[1] + CompM(c, 1), g[2] + CompM(c, 2)>>  wn == w \o CatL(Lines(c), 1)
           nn == <<n[1] + Len(q), n[2] + SumTo(LAMBDA k : q[k][1], Len(q)), n[3] + SumTo(LAMBDA k : q[k][2], Len(q))>>
       IN <<Step("add", c, CentOf(x2n, gn, wn, nn))>> \o StepsFrom(cs, i + 1, x2n, gn, wn, nn)
Steps(cs) == <<Step("new", <<>>, <<"none">>)>> \o StepsFrom(cs, 1, 0, <<0, 0>>, <<>>, <<0, 0, 0>>)
Query(op, a) ==      \* the centroid of one geometry
  LET s == Steps(IF op = "multi" THEN [i \in DOMAIN a |-> <<"A", a[i]>>] ELSE <<a>>) IN s[Len(s)][3]
(* through a precision model of k steps a unit: the nearest step; not claimed at a tie *)
Tie(n, d, k) == LET r == 2 * k * (n % d) IN r % d = 0 /\ (r \div d) % 2 = 1
Near(n, d, k) == (k * (n \div d)) + (((2 * k * (n % d)) + d) \div (2 * d))
Step1(n, d, k) == IF Tie(n, d, k) THEN "*" ELSE Near(n, d, k)
Snapped(k, e) == IF e[1] = "none" THEN "none" ELSE IF e[1] # "pt" THEN "*" ELSE LET d == Abs(e[4])  f == Sgn(e[4]) IN
  IF k = 0 THEN <<<<"single", f * e[2], d>>, <<"single", f * e[3], d>>>>   \* the single-precision number nearest to n/d
  ELSE <<Step1(f * e[2], d, k), Step1(f * e[3], d, k)>>
SnapOf(k, ps) == Snapped(k, Query("multi", ps))
(* snapping is idempotent, monotone and never moves further than half a step *)
SnapLaws == \A c \in Pool : c[1] = "A" => \A k \in {1, 4, 10} : LET e == Query("multi", <<c[2]>>) IN e[1] = "pt" => \A j \in {2, 3} :
  LET d == Abs(e[4])  n == Sgn(e[4]) * e[j]  q == Near(n, d, k) IN 2 * Abs((q * d) - (n * k)) <= d /\ Near(q, k, k) = q
AllAreal == \A i \in DOMAIN comps : comps[i][1] = "A"
EmitCases == Len(comps) > 0 =>
  /\ Len(comps) = M => Emit(Steps(comps))
  /\ Len(comps) = 1 => Emit(<<Step("one", comps[1], Cent)>>)
  /\ AllAreal => LET b == [i \in DOMAIN comps |-> comps[i][2]] IN
       /\ Emit(<<Step("multi", b, Cent)>>)
       /\ \A k \in {0, 1, 4, 10} : Emit(<<Step("snap", <<k, b>>, SnapOf(k, b))>>)
=============================================================================
