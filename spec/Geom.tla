-------------------------------- MODULE Geom --------------------------------
(* Geometries as nested sequences of coordinates and what may happen to      *)
(* them: copying, reversing, forking (a copy must not notice what happens to *)
(* its original, nor the original what happens to the copy) and requests of  *)
(* the envelope, which the code computes once and remembers.                 *)
(* A geometry is <<kind, layout, model, body>>: kind P L R A MP ML MA;       *)
(* model 1 when it carries a precision model; body a coordinate sequence     *)
(* (P L R), a sequence of rings, shell first (A), of members (MP ML MA).     *)
(* A coordinate is <<x, y, z, m>> with -99 for a missing ordinate.           *)
EXTENDS Lat
CONSTANTS Kinds, Ops, M, Mode
VARIABLES orig, hist, g
vars == <<orig, hist, g>>
Nil == -99

Same(a, b) == a[1] = b[1] /\ a[2] = b[2]
RECURSIVE Flat(_)
Flat(ls) == IF ls = <<>> THEN <<>> ELSE Head(ls) \o Flat(Tail(ls))
Kind(x) == x[1]
Body(x) == x[4]
Parts(x) == CASE Kind(x) \in {"P", "L", "R"} -> <<Body(x)>>
              [] Kind(x) = "MA" -> Flat(Body(x))
              [] OTHER -> Body(x)
Coords(x) == Flat(Parts(x))
WithBody(x, b) == <<x[1], x[2], x[3], b>>
Each(ls, F(_)) == [i \in DOMAIN ls |-> F(ls[i])]
RevParts(ls) == Each(ls, Rev)
Reverse(x) == WithBody(x, CASE Kind(x) \in {"P", "L", "R"} -> Rev(Body(x))
                            [] Kind(x) = "MA" -> Each(Body(x), RevParts)
                            [] OTHER -> RevParts(Body(x)))
Closed(t) == t # <<>> /\ Same(t[1], t[Len(t)])
EmptyPoly(p) == p[1] = <<>>
Empty(x) == CASE Kind(x) \in {"P", "L", "R"} -> Body(x) = <<>>
              [] Kind(x) = "A" -> EmptyPoly(Body(x))
              [] Kind(x) = "MA" -> \A i \in DOMAIN Body(x) : EmptyPoly(Body(x)[i])
              [] OTHER -> \A i \in DOMAIN Body(x) : Body(x)[i] = <<>>
IsClosed(x) == CASE Kind(x) = "L" -> Bit(Closed(Body(x)))
                 [] Kind(x) = "R" -> Bit(Body(x) = <<>> \/ Closed(Body(x)))
                 [] Kind(x) = "ML" -> Bit(~Empty(x) /\ \A i \in DOMAIN Body(x) : Closed(Body(x)[i]))
                 [] OTHER -> "*"
Dim(x) == CASE Kind(x) \in {"P", "MP"} -> 0 [] Kind(x) \in {"L", "R", "ML"} -> 1 [] OTHER -> 2
BDim(x) == CASE Kind(x) \in {"P", "MP", "R"} -> -1
             [] Kind(x) \in {"L", "ML"} -> IF IsClosed(x) = 1 THEN -1 ELSE 0
             [] OTHER -> 1
Count(x) == IF Kind(x) = "MP" /\ \E i \in DOMAIN Body(x) : Body(x)[i] = <<>> THEN "*" ELSE IF Kind(x) \in {"ML", "MA"} THEN "*" ELSE Len(Coords(x))
End(t, i) == IF t = <<>> THEN <<>> ELSE t[i]
(* content, coordinates, number of points, empty, dimension, boundary dimension, closed, first, start, end, precision model *)
Facts(x) == <<IF Kind(x) = "ML" THEN "*" ELSE Body(x),
              IF Kind(x) \in {"ML", "MA"} THEN "*" ELSE IF Kind(x) = "A" /\ Empty(x) THEN <<>> ELSE Coords(x),
              Count(x), Bit(Empty(x)), Dim(x), BDim(x), IsClosed(x),
              IF Kind(x) = "L" THEN <<End(Body(x), 1), End(Body(x), Len(Body(x)))>> ELSE "*",
              IF Kind(x) = "ML" \/ (Kind(x) \in {"A", "MA"} /\ x[3] = 0) \/ Kind(x) \in {"P", "L", "R"} THEN "*" ELSE x[3]>>
Box(x) == LET t == IF Kind(x) = "A" THEN Body(x)[1] ELSE Coords(x) IN IF t = <<>> THEN <<>> ELSE
          LET xs == {t[i][1] : i \in DOMAIN t}  ys == {t[i][2] : i \in DOMAIN t} IN <<SetMin(xs), SetMax(xs), SetMin(ys), SetMax(ys)>>
(* equal in the plane, member by member *)
PlaneEq(x, y) == LET P(t) == [i \in DOMAIN t |-> <<t[i][1], t[i][2]>>] IN
  /\ Kind(x) = Kind(y) /\ Len(Body(x)) = Len(Body(y))
  /\ Kind(x) = "MA" => \A i \in DOMAIN Body(x) : Len(Body(x)[i]) = Len(Body(y)[i])
  /\ Len(Parts(x)) = Len(Parts(y)) /\ \A i \in DOMAIN Parts(x) : P(Parts(x)[i]) = P(Parts(y)[i])

(* an axis-parallel box as a simple ring of four corners *)
Corners(t) == {<<t[i][1], t[i][2]>> : i \in DOMAIN t}
IsRect(x) == LET t == Body(x)[1]  b == Box(x) IN
  /\ Len(Body(x)) = 1 /\ Len(t) = 5 /\ Closed(t)
  /\ Corners(t) = {<<b[1], b[3]>>, <<b[2], b[3]>>, <<b[1], b[4]>>, <<b[2], b[4]>>} /\ Cardinality(Corners(t)) = 4
  /\ \A i \in 1..4 : t[i][1] = t[i + 1][1] \/ t[i][2] = t[i + 1][2]

(* only claimed for rings that visit no point twice *)
ShowRect(x) == LET t == Body(x)[1] IN IF Cardinality(Corners(t)) # Len(t) - 1 THEN "*" ELSE Bit(IsRect(x))

(* a line may be given another sequence; looking asks for the envelope and changes nothing *)
Fresh(x) == IF x[2] = "XY" THEN <<<<1, 0, Nil, Nil>>, <<0, 1, Nil, Nil>>>> ELSE <<<<1, 0, 12, 22>>, <<0, 1, Nil, 23>>>>
Apply(x, op) == CASE op = "rev" -> Reverse(x)
                  [] op = "void" -> IF Kind(x) = "L" THEN WithBody(x, <<>>) ELSE x
                  [] op = "init" -> IF Kind(x) = "L" THEN WithBody(x, Fresh(x)) ELSE x
                  [] OTHER -> x     \* copy, fork, keep, env, look

(* geometries close to x: backwards, one member less, one more, one ordinate of the last coordinate moved *)
Front(t) == SubSeq(t, 1, Len(t) - 1)
NudgeS(t, k) == IF t = <<>> THEN t ELSE [t EXCEPT ![Len(t)] = [@ EXCEPT ![k] = IF @ = Nil THEN 3 ELSE @ + 1]]
Nudge(x, k) == LET b == Body(x) IN WithBody(x,
  CASE b = <<>> -> b
    [] Kind(x) \in {"P", "L", "R"} -> NudgeS(b, k)
    [] Kind(x) = "MA" -> [b EXCEPT ![Len(b)] = [@ EXCEPT ![Len(@)] = NudgeS(@, k)]]
    [] OTHER -> [b EXCEPT ![Len(b)] = NudgeS(@, k)])
Others(x) == LET b == Body(x) IN
  <<Reverse(x), Nudge(x, 1), Nudge(x, 2)>>
  \o (IF x[2] = "XYZM" THEN <<Nudge(x, 3)>> ELSE <<>>)
  \o (IF Len(b) > 1 \/ (Len(b) = 1 /\ Kind(x) # "A") THEN <<WithBody(x, Front(b))>> ELSE <<>>)
  \o (IF b # <<>> /\ Kind(x) # "P" THEN <<WithBody(x, Append(b, b[Len(b)]))>> ELSE <<>>)

(* ------------------------------- behaviours ----------------------------- *)
Pl == {<<0, 0>>, <<1, 0>>, <<0, 1>>}
Tag(w, i, ly) == <<w[1], w[2], IF ly = "XY" \/ i % 3 = 2 THEN Nil ELSE 9 + i, IF ly = "XY" THEN Nil ELSE 19 + i>>
Tags(t, ly, k) == [i \in DOMAIN t |-> Tag(t[i], i + k, ly)]
Seqs(S, n) == UNION {[1..k -> S] : k \in 0..n}
RingBase == {<<>>, <<<<0, 0>>, <<2, 0>>, <<0, 2>>, <<0, 0>>>>, <<<<0, 0>>, <<1, 0>>, <<0, 1>>, <<1, 1>>, <<0, 0>>>>}
HoleBase == {<<<<0, 0>>, <<1, 0>>, <<0, 1>>, <<0, 0>>>>, <<<<0, 1>>, <<1, 0>>, <<0, 0>>, <<0, 1>>>>, <<>>}
Polys(n) == {<<s>> \o h : s \in RingBase \ {<<>>}, h \in Seqs(HoleBase, n)} \cup {<<<<>>>>}
Square(w, h, i, d) == LET c == <<<<0, 0>>, <<w, 0>>, <<w, h>>, <<0, h>>>> IN [k \in 1..5 |-> c[1 + ((i + d * k + 8) % 4)]]
Bodies(k, ly) ==
  CASE k = "P"  -> {Tags(t, ly, 0) : t \in Seqs(Pl, 1)}
    [] k \in {"L", "R"} -> {Tags(t, ly, 0) : t \in Seqs(Pl, 4)}
    [] k = "A"  -> {[i \in DOMAIN p |-> Tags(p[i], ly, 5 * (i - 1))] : p \in Polys(2)}
    [] k = "MP" -> {[i \in DOMAIN p |-> Tags(p[i], ly, i - 1)] : p \in Seqs({<<>>, <<<<0, 0>>>>, <<<<1, 0>>>>}, 3)}
    [] k = "ML" -> {[i \in DOMAIN p |-> Tags(p[i], ly, 5 * (i - 1))] : p \in Seqs({<<>>, <<<<0, 0>>, <<1, 0>>>>, <<<<0, 0>>, <<1, 0>>, <<0, 1>>, <<0, 0>>>>}, 3)}
    [] k = "MA" -> {[i \in DOMAIN p |-> [j \in DOMAIN p[i] |-> Tags(p[i][j], ly, 5 * (j - 1) + 2 * (i - 1))]] : p \in Seqs(Polys(1), 2)}
    [] k = "BOX" -> {<<Tags(Square(w, h, i, d), "XY", 0)>> : w \in 1..2, h \in 1..2, i \in 0..3, d \in {1, -1}}
                    \cup {<<Tags(Square(2, 2, i, d), "XY", 0), Tags(Square(1, 1, i, 1), "XY", 0)>> : i \in 0..1, d \in {1, -1}}
                    \cup {<<Tags(Square(2, 2, i, 1), "XY", 0), <<>> >> : i \in 0..1}
                    \cup {<<Tags(<<<<0, 0>>, <<1, 0>>, <<2, 0>>, <<2, 1>>, <<0, 1>>, <<0, 0>>>>, "XY", 0)>>, <<Tags(<<<<0, 0>>, <<2, 0>>, <<2, 1>>, <<0, 0>>>>, "XY", 0)>>}
                    \cup {<<Tags([Square(2, 2, i, 1) EXCEPT ![3] = <<a, b>>], "XY", 0)>> : i \in 0..3, a \in 0..2, b \in 0..2}
Init == /\ \E k \in Kinds : \E ly \in IF k = "BOX" THEN {"XY"} ELSE {"XY", "XYZM"} : \E m \in IF k \in {"A", "MP", "ML", "MA"} /\ Mode = "facts" THEN {0, 1} ELSE {0} :
             \E b \in Bodies(k, ly) : orig = <<IF k = "BOX" THEN "A" ELSE k, ly, m, b>>
        /\ hist = <<>> /\ g = orig
Next == /\ Len(hist) < M
        /\ \E op \in Ops : hist' = Append(hist, op) /\ g' = Apply(g, op)
        /\ UNCHANGED orig
Spec == Init /\ [][Next]_vars

(* ------------------------------ properties ------------------------------ *)
Involution == Reverse(Reverse(g)) = g
Bag(t) == [c \in {t[i] : i \in DOMAIN t} |-> Cardinality({i \in DOMAIN t : t[i] = c})]
Replaced == \E i \in DOMAIN hist : hist[i] \in {"void", "init"}
EqualLaws == LET o == Others(g) IN PlaneEq(g, g) /\ \A k \in DOMAIN o : PlaneEq(g, o[k]) = PlaneEq(o[k], g)
Kept == Replaced \/
        /\ Bag(Coords(g)) = Bag(Coords(orig)) /\ Box(g) = Box(orig) /\ Empty(g) = Empty(orig) /\ IsClosed(g) = IsClosed(orig)
        /\ Len(Parts(g)) = Len(Parts(orig)) /\ \A i \in DOMAIN Parts(g) : Len(Parts(g)[i]) = Len(Parts(orig)[i])
BoxTight == (Kind(g) # "MA" /\ ~Empty(g)) => LET t == Coords(g)  b == Box(g) IN
  /\ \A i \in DOMAIN t : b[1] <= t[i][1] /\ t[i][1] <= b[2] /\ b[3] <= t[i][2] /\ t[i][2] <= b[4]
  /\ \A k \in 1..4 : \E i \in DOMAIN t : t[i][(k + 1) \div 2] = b[k]
NullIffEmpty == (Box(g) = <<>>) = Empty(g)

(* ------------------------------ conformance ----------------------------- *)
(* in mode "facts" every step shows the facts; in mode "box" only the        *)
(* requests show anything, so that nothing else triggers the computation     *)
Shown(op, x) == IF Mode = "facts" THEN <<Step(op, <<>>, Facts(x)), Step("is", <<x>>, 1)>>
                ELSE IF op = "env" THEN <<Step(op, <<>>, Box(x))>> ELSE <<Step(op, <<>>, 0)>>
(* is a place a vertex of a line: whatever is measured or raised there *)
Probes == <<<<0, 0, Nil, Nil>>, <<1, 0, 33, Nil>>, <<0, 1, 34, 35>>, <<1, 1, Nil, Nil>>, <<2, 0, 36, 37>>>>
Verts(x) == IF Kind(x) # "L" THEN <<>> ELSE [k \in DOMAIN Probes |-> Step("vertex", <<Probes[k]>>, Bit(\E i \in DOMAIN Body(x) : Same(Body(x)[i], Probes[k])))]
RECURSIVE Hist(_, _, _)
Hist(x, h, i) == IF i > Len(h) THEN (IF Mode = "facts" THEN LET o == Others(x) IN [k \in DOMAIN o |-> Step("is", <<o[k]>>, Bit(PlaneEq(x, o[k])))] \o Verts(x) ELSE <<Step("env", <<>>, Box(x))>>)
                 ELSE LET y == Apply(x, h[i]) IN Shown(h[i], y) \o Hist(y, h, i + 1)
Behave(x, h) == Emit(<<Step("build", <<x>>, IF Mode = "facts" THEN Facts(x) ELSE IF Kind(x) = "A" THEN ShowRect(x) ELSE 0)>> \o Hist(x, h, 1))
EmitCases == (Len(hist) = M \/ (Mode = "box" /\ hist = <<>>)) => Behave(orig, hist)
=============================================================================
