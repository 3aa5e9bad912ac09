------------------------------- MODULE Coord ---------------------------------
(* A single coordinate <<x, y, z, m>> with optional height and measure over a *)
(* history of assignments, and the relations between two coordinates.         *)
EXTENDS Lat
CONSTANTS N, M            \* ordinates 0..N; histories of M mutations
VARIABLES mode, hist, co, other
vars == <<mode, hist, co, other>>

Nil == -99                \* the missing ordinate
Inf == -97                \* a value that is not finite
IsNum(v) == v # Nil
Fin(v) == v # Nil /\ v # Inf

Blank == <<0, 0, Nil, Nil>>
Layout(d, k) == CASE d = 2 -> Blank
                  [] d = 3 /\ k = 0 -> Blank
                  [] d = 3 /\ k = 1 -> <<0, 0, Nil, 0>>
                  [] d = 4 /\ k = 1 -> <<0, 0, 0, 0>>
Apply(c, m) ==
  CASE m[1] = "new"  -> (CASE m[2] = "default" -> Blank
                           [] m[2] = "xy"   -> <<m[3][1], m[3][2], Nil, Nil>>
                           [] m[2] = "xyz"  -> <<m[3][1], m[3][2], m[3][3], Nil>>
                           [] m[2] = "xym"  -> <<m[3][1], m[3][2], Nil, m[3][4]>>
                           [] m[2] = "xyzm" -> m[3])
    [] m[1] = "dim"  -> Layout(m[2], m[3])
    [] m[1] = "set"  -> [c EXCEPT ![m[2] + 1] = m[3]]
    [] m[1] = "miss" -> c                            \* no such ordinate
    [] m[1] = "copy" -> c
    [] m[1] = "pos"  -> <<m[2][1], m[2][2], m[2][3], m[3]>>   \* x, y, z of another, then the measure

Valid(c) == Fin(c[1]) /\ Fin(c[2])
Dims(c) == 2 + Bit(IsNum(c[3])) + Bit(IsNum(c[4]))
Meas(c) == Bit(IsNum(c[4]))

Eq2(a, b) == a[1] = b[1] /\ a[2] = b[2]
Eq3(a, b) == Eq2(a, b) /\ a[3] = b[3]
Comp(a, b) == IF a[1] # b[1] THEN Sgn(a[1] - b[1]) ELSE Sgn(a[2] - b[2])
D2(a, b) == (a[1] - b[1]) * (a[1] - b[1]) + (a[2] - b[2]) * (a[2] - b[2])
D3(a, b) == D2(a, b) + (a[3] - b[3]) * (a[3] - b[3])
HasZ(a, b) == IsNum(a[3]) /\ IsNum(b[3])
NearXY(a, b, t) == Abs(a[1] - b[1]) <= t /\ Abs(a[2] - b[2]) <= t
NearZ(a, b, t) == HasZ(a, b) /\ Abs(a[3] - b[3]) <= t
NearD(a, b, t) == D2(a, b) <= t * t

(* ----------------------------- behaviours ------------------------------- *)
Samples == { <<1, 2, 3, 4>>, <<2, 1, Nil, 3>>, <<-1, 0, 2, Nil>>, <<Inf, 1, Nil, Nil>>, <<3, Inf, 1, 0>> }
Muts == {<<"new", k, s>> : k \in {"default", "xy", "xyz", "xym", "xyzm"}, s \in {<<1, 2, 3, 4>>, <<4, -3, 2, -1>>}}
        \cup {<<"dim", 2, 0>>, <<"dim", 3, 0>>, <<"dim", 3, 1>>, <<"dim", 4, 1>>, <<"miss", 4, 7>>, <<"miss", -1, 7>>, <<"copy">>}
        \cup {<<"set", i, v>> : i \in 0..3, v \in {-2, 5}} \cup {<<"set", 2, Nil>>, <<"set", 3, Nil>>, <<"set", 0, Inf>>, <<"set", 1, Inf>>}
        \cup {<<"pos", s, v>> : s \in Samples, v \in {6, Nil}}
Coords == {<<x, y, z, m>> : x \in 0..N, y \in 0..N, z \in {Nil, 0, 2}, m \in {Nil, 1}}
Init == \/ M > 0 /\ mode = "hist" /\ hist = <<>> /\ co = Blank /\ other = Blank
        \/ N > 0 /\ mode = "pair" /\ hist = <<>> /\ co \in Coords /\ other \in Coords
Next == /\ mode = "hist" /\ Len(hist) < M
        /\ \E m \in Muts : hist' = Append(hist, m) /\ co' = Apply(co, m)
        /\ UNCHANGED <<mode, other>>
Spec == Init /\ [][Next]_vars

(* ----------------------------- properties ------------------------------- *)
OrderRight == mode = "pair" =>
  /\ (Comp(co, other) = 0) <=> Eq2(co, other)
  /\ Comp(co, other) = -Comp(other, co)
  /\ Eq3(co, other) => Eq2(co, other)
  /\ Eq2(co, other) <=> NearXY(co, other, 0)
  /\ \A c \in {<<x, y, Nil, Nil>> : x \in 0..N, y \in 0..N} :
        Comp(co, other) <= 0 /\ Comp(other, c) <= 0 => Comp(co, c) <= 0
NearRight == mode = "pair" => \A t \in 0..(N + 1) :
  /\ NearD(co, other, t) => NearXY(co, other, t)
  /\ NearXY(co, other, t) => NearD(co, other, 2 * t)
  /\ HasZ(co, other) => D3(co, other) >= D2(co, other)
  /\ NearXY(co, other, t) => NearXY(other, co, t)
(* an assignment reaches its own ordinate only, and can be read back *)
Local == [][\A i \in 1..4 : LET m == hist'[Len(hist')] IN
              m[1] = "set" => co'[i] = IF i = m[2] + 1 THEN m[3] ELSE co[i]]_vars

(* ----------------------------- conformance ------------------------------ *)
Obs(c) == << c, Bit(Valid(c)),
             IF IsNum(c[1]) /\ IsNum(c[2]) THEN <<Dims(c), Meas(c)>> ELSE "*" >>
Rel(a, b) == << Bit(Eq2(a, b)), Bit(Eq3(a, b)), Comp(a, b), <<"sqrt", D2(a, b), 1>>,
                IF HasZ(a, b) THEN <<"sqrt", D3(a, b), 1>> ELSE "*" >>
Tol(a, b, t) == << Bit(NearXY(a, b, t)), IF HasZ(a, b) THEN Bit(NearZ(a, b, t)) ELSE "*",
                   \* exactly at the tolerance only where the distance needs no rounding
                   IF D2(a, b) = t * t /\ a[1] # b[1] /\ a[2] # b[2] THEN "*" ELSE Bit(NearD(a, b, t)) >>
Query(op, a) == CASE op = "rel" -> Rel(a[1], a[2])
                  [] op = "tol" -> Tol(a[1], a[2], a[3])
RECURSIVE Hist(_, _, _)
Hist(c, h, i) == IF i > Len(h) THEN <<>> ELSE LET d == Apply(c, h[i]) IN <<Step("mut", h[i], Obs(d))>> \o Hist(d, h, i + 1)
EmitCases ==
  IF mode = "hist" THEN Len(hist) = M => Emit(Hist(Blank, hist, 1))
  ELSE Emit(<<Step("rel", <<co, other>>, Rel(co, other))>>
            \o [t \in 1..(N + 1) |-> Step("tol", <<co, other, t - 1>>, Tol(co, other, t - 1))])
=============================================================================
