------------------------------- MODULE Measure -------------------------------
(* Area and length of rings, lines, polygons with holes and collections.    *)
(* A geometry is built ring by ring; the accumulated totals must agree with *)
(* the sums over the finished geometry.                                     *)
EXTENDS Ring
CONSTANTS N, K, M          \* lattice, vertices of an explored ring, rings of an explored collection
VARIABLES v, geo, twice, segs, phase
vars == <<v, geo, twice, segs, phase>>
Pts == (0..N) \X (0..N)

(* a line's squared segment lengths *)
SegLens(p) == [i \in 1..(Len(p) - 1) |-> Dist2(p[i], p[i + 1])]
Lens(p) == IF Len(p) < 2 THEN <<>> ELSE SegLens(p)
RECURSIVE Cat(_, _)
Cat(f(_), n) == IF n = 0 THEN <<>> ELSE Cat(f, n - 1) \o f(n)

RingPool == <<
  <<>>,
  Cl(<< <<0, 0>>, <<4, 0>>, <<4, 4>>, <<0, 4>> >>),
  Cl(<< <<1, 1>>, <<1, 2>>, <<2, 1>> >>),
  Cl(<< <<2, 2>>, <<3, 2>>, <<3, 3>>, <<2, 3>> >>),
  Cl(<< <<3, 1>>, <<3, 1>>, <<1, 3>>, <<2, 3>>, <<2, 3>> >>),
  Cl(<< <<0, 0>>, <<2, 0>>, <<0, 2>>, <<2, 2>> >>),
  Cl(<< <<-3, 5>>, <<7, -1>>, <<-2, -6>>, <<1, 1>> >>) >>

PolyArea2(p) == Abs(Area2(p[1])) - SumTo(LAMBDA i : Abs(Area2(p[i + 1])), Len(p) - 1)
PolyLens(p) == Cat(LAMBDA i : Lens(p[i]), Len(p))

Init == v = <<>> /\ geo = <<>> /\ twice = 0 /\ segs = 0 /\ phase = "ring"
AddVertex(p) == phase = "ring" /\ Len(v) < K /\ v' = Append(v, p) /\ UNCHANGED <<geo, twice, segs, phase>>
RECURSIVE Rings(_)
Rings(g) == IF g = <<>> THEN 0 ELSE Len(g[1]) + Rings(Tail(g))
Start == phase = "ring" /\ v = <<>> /\ phase' = "geo" /\ UNCHANGED <<v, geo, twice, segs>>
AddShell(k) ==
  /\ phase = "geo" /\ Rings(geo) < M
  /\ geo' = Append(geo, <<RingPool[k]>>)
  /\ twice' = twice + Abs(Area2(RingPool[k])) /\ segs' = segs + Len(Lens(RingPool[k]))
  /\ UNCHANGED <<v, phase>>
AddHole(k) ==
  /\ phase = "geo" /\ geo # <<>> /\ Rings(geo) < M
  /\ geo' = [geo EXCEPT ![Len(geo)] = Append(@, RingPool[k])]
  /\ twice' = twice - Abs(Area2(RingPool[k])) /\ segs' = segs + Len(Lens(RingPool[k]))
  /\ UNCHANGED <<v, phase>>
Next == Start \/ (\E p \in Pts : AddVertex(p)) \/ \E k \in DOMAIN RingPool : AddShell(k) \/ AddHole(k)
Spec == Init /\ [][Next]_vars

(* ------------------------------ properties ------------------------------ *)
r == Cl(v)
Moved(p, d) == [i \in DOMAIN p |-> <<p[i][1] + d[1], p[i][2] + d[2]>>]
AreaLaws == phase = "ring" => /\ Area2(Rev(r)) = -Area2(r)
                              /\ Area2(Moved(r, <<5, -7>>)) = Area2(r)
                              /\ Len(v) > 1 => Area2(Cl(Rot(v, 1))) = Area2(r)
                              /\ Lens(Rev(r)) = Rev(Lens(r))
(* the area is the sum of the fan of triangles from any point *)
FanSum(q) == SumTo(LAMBDA i : Cross(q, r[i], r[i + 1]), Len(r) - 1)
FanAgrees == phase = "ring" /\ v # <<>> => \A q \in {<<0, 0>>, <<3, -5>>} : FanSum(q) = Area2(r)
Accumulated == phase = "geo" =>
  /\ twice = SumTo(LAMBDA i : PolyArea2(geo[i]), Len(geo))
  /\ segs = SumTo(LAMBDA i : Len(PolyLens(geo[i])), Len(geo))

(* ------------------------------ conformance ----------------------------- *)
SumSqrt(s) == <<"sumsqrt">> \o s
Query(op, a) ==
  CASE op = "ring" -> <<-Area2(a[1]), SumSqrt(Lens(a[1]))>>
    [] op = "line" -> SumSqrt(Lens(a[1]))
    [] op = "geo" -> <<SumTo(LAMBDA i : PolyArea2(a[1][i]), Len(a[1])),
                       [i \in DOMAIN a[1] |-> PolyArea2(a[1][i])],
                       [i \in DOMAIN a[1] |-> SumSqrt(PolyLens(a[1][i]))]>>
Case(op, a) == Emit(<<Step(op, a, Query(op, a))>>)
EmitCases == IF phase = "ring" THEN Case("ring", <<r>>) /\ Case("line", <<v>>) ELSE Case("geo", <<geo>>)
=============================================================================
