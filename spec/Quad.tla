-------------------------------- MODULE Quad --------------------------------
(* Quadrants of directions, and the tables of positions, dimensions and      *)
(* locations.  The state is a directed pair of points; it turns by quarter   *)
(* turns, is reversed, moved, and its end walks over the lattice.            *)
EXTENDS Lat
CONSTANTS N
VARIABLES p, q
vars == <<p, q>>

(* quadrants, counter-clockwise: 0 NE, 1 NW, 2 SW, 3 SE.  The axes belong to *)
(* the quadrant east of the vertical one, north of the horizontal one.       *)
East(v) == v[1] >= 0
North(v) == v[2] >= 0
Of(v) == IF v = <<0, 0>> THEN -1
         ELSE CHOOSE i \in 0..3 : (i \in {0, 3}) = East(v) /\ (i \in {0, 1}) = North(v)
D(a, b) == <<b[1] - a[1], b[2] - a[2]>>
Inner(i) == <<<<1, 1>>, <<-1, 1>>, <<-1, -1>>, <<1, -1>>>>[i + 1]        \* a direction inside
(* half-plane h consists of quadrant h and the next one; its inner normal *)
Normal(h) == <<<<0, 1>>, <<-1, 0>>, <<0, -1>>, <<1, 0>>>>[h + 1]
Dot2(v, w) == v[1] * w[1] + v[2] * w[2]
InHalf(i, h) == Dot2(Inner(i), Normal(h)) > 0
Opposite(i, j) == Inner(i) = <<-Inner(j)[1], -Inner(j)[2]>>
Common(i, j) == IF i = j THEN i
                ELSE IF \E h \in 0..3 : InHalf(i, h) /\ InHalf(j, h) THEN CHOOSE h \in 0..3 : InHalf(i, h) /\ InHalf(j, h) ELSE -1
Northern(i) == Dot2(Inner(i), <<0, 1>>) > 0

Swap(s) == CASE s = 1 -> 2 [] s = 2 -> 1 [] OTHER -> s
DimSym == << <<-3, "*">>, <<-2, "T">>, <<-1, "F">>, <<0, "0">>, <<1, "1">>, <<2, "2">> >>
DimOf(v) == IF \E i \in DOMAIN DimSym : DimSym[i][1] = v THEN DimSym[CHOOSE i \in DOMAIN DimSym : DimSym[i][1] = v][2] ELSE "none"
LocSym(v) == CASE v = 0 -> "i" [] v = 1 -> "b" [] v = 2 -> "e" [] v = -1 -> "-" [] OTHER -> "none"
Lower == [c \in {"T", "F"} |-> IF c = "T" THEN "t" ELSE "f"]
DimVal(c) == IF \E i \in DOMAIN DimSym : DimSym[i][2] = c \/ (c \in {"t", "f"} /\ DimSym[i][2] \in {"T", "F"} /\ Lower[DimSym[i][2]] = c)
             THEN DimSym[CHOOSE i \in DOMAIN DimSym : DimSym[i][2] = c \/ (c \in {"t", "f"} /\ DimSym[i][2] \in {"T", "F"} /\ Lower[DimSym[i][2]] = c)][1] ELSE "none"
Chars == <<"*", "T", "F", "t", "f", "0", "1", "2", "3", "9", "x", "-", " ", "P", "L", "A">>

(* ------------------------------ behaviours ------------------------------ *)
Init == p = <<0, 0>> /\ q = <<0, 0>>
In(v) == Abs(v[1]) <= N /\ Abs(v[2]) <= N
Walk(d) == LET r == <<q[1] + d[1], q[2] + d[2]>> IN In(r) /\ q' = r /\ UNCHANGED p
Move(d) == LET r == <<q[1] + d[1], q[2] + d[2]>>  s == <<p[1] + d[1], p[2] + d[2]>> IN In(r) /\ In(s) /\ q' = r /\ p' = s
Back == p' = q /\ q' = p
Quarter == LET v == D(p, q)  r == <<p[1] - v[2], p[2] + v[1]>> IN In(r) /\ q' = r /\ UNCHANGED p
Next == Back \/ Quarter \/ \E d \in {<<1, 0>>, <<0, 1>>, <<-1, 0>>, <<0, -1>>} : Walk(d) \/ Move(d)
Spec == Init /\ [][Next]_vars

(* ------------------------------ properties ------------------------------ *)
OffAxis(v) == v[1] # 0 /\ v[2] # 0
Turns == [][LET v == D(p, q)  w == D(p', q') IN
   /\ (w = v) => Of(w) = Of(v)
   /\ (OffAxis(v) /\ w = <<-v[2], v[1]>>) => Of(w) = (Of(v) + 1) % 4
   /\ (OffAxis(v) /\ w = <<-v[1], -v[2]>>) => Opposite(Of(v), Of(w))]_vars
Tables == /\ \A i, j \in 0..3 : /\ Opposite(i, j) = (Common(i, j) = -1)
                                /\ Common(i, j) # -1 => InHalf(i, Common(i, j)) /\ InHalf(j, Common(i, j))
                                /\ Common(i, j) = Common(j, i)
          /\ \A h \in 0..3 : {i \in 0..3 : InHalf(i, h)} = {h, (h + 1) % 4}
          /\ \A s \in 0..2 : Swap(Swap(s)) = s /\ (Swap(s) = s <=> s = 0)
          /\ \A v \in -3..2 : DimVal(DimOf(v)) = v

(* ------------------------------ conformance ----------------------------- *)
Query(op, a) == CASE op = "of" -> Of(D(a[1], a[2]))
                  [] op = "pair" -> <<Bit(Opposite(a[1], a[2])), Common(a[1], a[2]), Bit(InHalf(a[1], a[2])), Bit(Northern(a[1]))>>
                  [] op = "pos" -> Swap(a[1])
                  [] op = "dim" -> DimOf(a[1])
                  [] op = "sym" -> DimVal(a[1])
                  [] op = "loc" -> LocSym(a[1])
Q(op, a) == Step(op, a, Query(op, a))
EmitCases == /\ Emit(<<Q("of", <<p, q>>)>>)
             /\ (p = <<0, 0>> /\ q = p) =>
                  /\ \A i, j \in 0..3 : Emit(<<Q("pair", <<i, j>>)>>)
                  /\ \A s \in 0..2 : Emit(<<Q("pos", <<s>>)>>)
                  /\ \A v \in -6..6 : Emit(<<Q("dim", <<v>>), Q("loc", <<v>>)>>)
                  /\ \A i \in DOMAIN Chars : Emit(<<Q("sym", <<Chars[i]>>)>>)
=============================================================================
