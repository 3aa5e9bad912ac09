-------------------------------- MODULE Make --------------------------------
(* Building geometries.  A memory of values is extended by making a new one  *)
(* from old ones along one of many routes; coordinates and sequences can be  *)
(* overwritten afterwards, which nothing made from them may notice.          *)
(* A value is <<type, layout, body>>: V coordinates, S sequence, K packed    *)
(* sequence, P L R A MP ML MA geometries (body as in module Geom).  Layout   *)
(* "?" where it was left to be inferred from nothing.                        *)
EXTENDS Lat
CONSTANTS M, Sizes
VARIABLES lay, mem, hist
vars == <<lay, mem, hist>>
Nil == -99
Layouts == {"XY", "XYZ", "XYM", "XYZM"}
Counts(ly) == CASE ly = "XY" -> <<2, 0>> [] ly = "XYZ" -> <<3, 0>> [] ly = "XYM" -> <<3, 1>> [] ly = "XYZM" -> <<4, 1>> [] OTHER -> "*"
Fit(c, ly) == <<c[1], c[2], IF ly \in {"XYZ", "XYZM"} THEN c[3] ELSE Nil, IF ly \in {"XYM", "XYZM"} THEN c[4] ELSE Nil>>
T(v) == v[1]
L(v) == v[2]
B(v) == v[3]
RECURSIVE Flat(_)
Flat(ls) == IF ls = <<>> THEN <<>> ELSE Head(ls) \o Flat(Tail(ls))
Parts(v) == CASE T(v) \in {"V", "S", "K", "P", "L", "R"} -> <<B(v)>> [] T(v) = "MA" -> Flat(B(v)) [] OTHER -> B(v)
Coords(v) == IF T(v) = "A" /\ B(v)[1] = <<>> THEN <<>> ELSE Flat(Parts(v))
(* layout of what is inferred from coordinates *)
Inf(v) == IF Coords(v) = <<>> THEN "?" ELSE L(v)
Spoiled(v) == <<T(v), L(v), [i \in DOMAIN B(v) |-> Fit(<<50, 51, 52, 53>>, lay)]>>

(* routes from one value, with the type they lead to; "inferred" ones lose   *)
(* the layout of nothing                                                     *)
One == {<<"af", "V", "S", 1>>, <<"arr", "V", "S", 1>>, <<"dm", "V", "S", 2>>, <<"dim", "V", "S", 1>>, <<"pf", "V", "K", 1>>, <<"pd", "V", "K", 2>>,
        <<"copy", "S", "S", 0>>, <<"from", "S", "S", 0>>, <<"aff", "S", "S", 0>>, <<"size", "S", "S", 0>>,
        <<"kcopy", "K", "K", 0>>, <<"ksize", "K", "K", 0>>, <<"sv", "S", "V", 0>>, <<"kv", "K", "V", 0>>,
        <<"pv", "V", "P", 1>>, <<"pn", "V", "P", 1>>, <<"ps", "S", "P", 0>>, <<"pss", "S", "P", 0>>,
        <<"lv", "V", "L", 1>>, <<"ls", "S", "L", 0>>, <<"lss", "S", "L", 0>>,
        <<"rv", "V", "R", 1>>, <<"rn", "V", "R", 1>>, <<"rs", "S", "R", 0>>, <<"rss", "S", "R", 0>>,
        <<"lq", "L", "S", 0>>, <<"rq", "R", "S", 0>>, <<"pq", "P", "S", 0>>,
        <<"pc", "P", "P", 0>>, <<"lc", "L", "L", 0>>, <<"rc", "R", "R", 0>>}
Lay1(f, v) == IF f = 1 THEN Inf(v) ELSE IF f = 2 THEN lay ELSE L(v)
(* a part with nothing in it may have any layout *)
Of(v, t) == IF t = <<>> THEN "?" ELSE L(v)
(* <<route, sources, result>> *)
FromOne(i, v) ==
     {<<r[1], <<i>>, <<r[3], Lay1(r[4], v), B(v)>>>> : r \in {r \in One : r[2] = T(v) /\ (r[3] = "P" => Len(B(v)) <= 1) /\ (r[1] \in {"pv", "pn"} => Len(B(v)) = 1)}}
 \cup (IF T(v) \in {"V", "S"} THEN {<<IF T(v) = "V" THEN "av" ELSE "as", <<i>>, <<"A", Lay1(Bit(T(v) = "V"), v), <<B(v)>>>>>>,
                                     <<IF T(v) = "V" THEN "mv" ELSE "ms", <<i>>, <<"MP", Lay1(Bit(T(v) = "V"), v), [k \in DOMAIN B(v) |-> <<B(v)[k]>>]>>>>} ELSE {})
 \cup (IF T(v) = "R" THEN {<<r, <<i>>, <<"A", L(v), <<B(v)>>>>>> : r \in {"ar", "arn", "arm"}} ELSE {})
 \cup (IF T(v) \in {"P", "L", "R", "A", "MP"} THEN {<<"gv", <<i>>, <<"V", Inf(v), Coords(v)>>>>} ELSE {})
 \cup (IF T(v) \in {"A", "MP", "MA"} THEN {<<"gc", <<i>>, v>>} ELSE {})
 \cup (IF T(v) = "L" /\ B(v) # <<>> THEN {<<"end", <<i>>, <<"P", L(v), <<B(v)[Len(B(v))]>>>>>>} ELSE {})
 \cup (IF T(v) = "A" THEN {<<"shell", <<i>>, <<"R", Of(v, B(v)[1]), B(v)[1]>>>>} ELSE {})
 \cup (IF T(v) = "A" /\ Len(B(v)) > 1 THEN {<<"hole", <<i>>, <<"R", Of(v, B(v)[2]), B(v)[2]>>>>} ELSE {})
 \cup (IF T(v) = "MP" /\ Len(B(v)) > 0 THEN {<<"at", <<i>>, <<"P", Of(v, B(v)[Len(B(v))]), B(v)[Len(B(v))]>>>>} ELSE {})
 \cup (IF T(v) = "MA" THEN {<<"aat", <<i>>, <<"A", Of(v, Flat(B(v)[Len(B(v))])), B(v)[Len(B(v))]>>>>} ELSE {})
FromTwo(i, v, j, w) ==
  LET ly == IF Flat(Parts(v)) = <<>> THEN L(w) ELSE L(v)  R(names, t, b) == {<<r, <<i, j>>, <<t, ly, b>>>> : r \in names} IN
  CASE T(v) = "R" /\ T(w) = "R" -> R({"ah", "ahn", "ahm"}, "A", <<B(v), B(w)>>)
    [] T(v) = "P" /\ T(w) = "P" -> R({"mpp", "mpn", "mpm"}, "MP", <<B(v), B(w)>>)
    [] T(v) = "L" /\ T(w) = "L" -> R({"mln", "mlm"}, "ML", <<B(v), B(w)>>)
    [] T(v) = "A" /\ T(w) = "A" -> R({"man", "mag", "mam"}, "MA", <<B(v), B(w)>>)
    [] OTHER -> {}
FromNone == {<<"p0", <<>>, <<"P", "?", <<>>>>>>, <<"p00", <<>>, <<"P", "?", <<>>>>>>, <<"l0", <<>>, <<"L", "?", <<>>>>>>, <<"r0", <<>>, <<"R", "?", <<>>>>>>}
Makes(m) == FromNone \cup UNION {FromOne(i, m[i]) : i \in DOMAIN m} \cup UNION {FromTwo(i, m[i], j, m[j]) : i \in DOMAIN m, j \in DOMAIN m}

Shape(n) == [i \in 1..n |-> IF i = n /\ n > 3 THEN <<1, 2, 11, 21>> ELSE <<i, ((3 * i) % 5) - 1, 10 + (i % 35), 20 + (i % 35)>>]
Init == /\ lay \in Layouts /\ \E n \in Sizes : mem = <<<<"V", IF n = 0 THEN "?" ELSE lay, [i \in 1..n |-> Fit(Shape(n)[i], lay)]>>>>
        /\ hist = <<>>
Spoil(i) == /\ T(mem[i]) \in {"V", "S", "K"} /\ B(mem[i]) # <<>>
            /\ mem' = [mem EXCEPT ![i] = Spoiled(mem[i])]
            /\ hist' = Append(hist, <<"spoil", <<i>>>>)
Make(r) == mem' = Append(mem, r[3]) /\ hist' = Append(hist, <<r[1], r[2]>>)
Next == /\ Len(hist) < M /\ UNCHANGED lay
        /\ (\E r \in Makes(mem) : Make(r)) \/ (\E i \in DOMAIN mem : Spoil(i))
Spec == Init /\ [][Next]_vars

(* ------------------------------ properties ------------------------------ *)
(* everything is made of coordinates that were there before, in their order *)
Kept == [][Len(mem') > Len(mem) => LET n == mem'[Len(mem')] IN
  /\ \A i \in DOMAIN mem : mem'[i] = mem[i]
  /\ T(n) # "MA" => \A k \in DOMAIN Parts(n) : Parts(n)[k] # <<>> => \E i \in DOMAIN mem : \E q \in DOMAIN Parts(mem[i]) : \E a, b \in 1..Len(Parts(mem[i])[q]) :
       Parts(n)[k] = SubSeq(Parts(mem[i])[q], a, b) \/ Parts(n)[k] = Coords(mem[i])]_vars
Alone == [][Len(mem') = Len(mem) => Cardinality({i \in DOMAIN mem : mem'[i] # mem[i]}) <= 1]_vars
Shapely == \A i \in DOMAIN mem : T(mem[i]) = "P" => Len(B(mem[i])) <= 1
OneLayout == \A i \in DOMAIN mem : L(mem[i]) \in {lay, "?"} /\ (L(mem[i]) = "?" => \A k \in DOMAIN Parts(mem[i]) : Parts(mem[i])[k] = <<>>)

(* ------------------------------ conformance ----------------------------- *)
Empty(v) == CASE T(v) \in {"P", "L", "R"} -> Bit(B(v) = <<>>) [] T(v) = "A" -> Bit(B(v)[1] = <<>>) [] T(v) = "MA" -> Bit(\A i \in DOMAIN B(v) : B(v)[i][1] = <<>>)
              [] T(v) \in {"MP", "ML"} -> Bit(\A i \in DOMAIN B(v) : B(v)[i] = <<>>) [] OTHER -> "*"
(* counts of dimensions and measures of each part with something in it *)
PartCounts(v) == CASE T(v) \in {"S", "K", "P", "L", "R"} -> <<Counts(L(v))>> [] T(v) \in {"V", "ML"} -> "*"
                   [] OTHER -> [k \in DOMAIN Parts(v) |-> IF Parts(v)[k] = <<>> THEN "*" ELSE Counts(L(v))]
Show(v, r) == <<T(v), PartCounts(v), IF T(v) = "ML" THEN "*" ELSE B(v), Empty(v), IF T(v) = "MP" THEN Bit(r = "mpm") ELSE "*">>
(* geometries of one type are equal exactly when they hold the same plane coordinates *)
Plane(v) == [k \in DOMAIN Parts(v) |-> [i \in DOMAIN Parts(v)[k] |-> <<Parts(v)[k][i][1], Parts(v)[k][i][2]>>]]
Nest(v) == IF T(v) = "MA" THEN [i \in DOMAIN B(v) |-> Len(B(v)[i])] ELSE <<>>
Eq(v, w) == Bit(Plane(v) = Plane(w) /\ Nest(v) = Nest(w))
Geoms == {"P", "L", "R", "A", "MP", "ML", "MA"}
Equals(m) == LET v == m[Len(m)] IN [j \in DOMAIN m |-> IF T(m[j]) = T(v) /\ T(v) \in Geoms THEN Eq(m[j], v) ELSE "*"]
RouteOf(rs, i) == IF i = 1 THEN "" ELSE rs[i - 1]
(* routes that made the values, without the overwritings; a copied multi point keeps its model *)
RECURSIVE MadeBy(_, _)
MadeBy(h, acc) == IF h = <<>> THEN acc ELSE IF h[1][1] = "spoil" THEN MadeBy(Tail(h), acc)
                  ELSE MadeBy(Tail(h), Append(acc, IF h[1][1] = "gc" THEN RouteOf(acc, h[1][2][1]) ELSE h[1][1]))
Obs(m, h) == <<[i \in DOMAIN m |-> Show(m[i], RouteOf(MadeBy(h, <<>>), i))], Equals(m)>>
Result(m, u) == IF u[1] = "spoil" THEN [m EXCEPT ![u[2][1]] = Spoiled(m[u[2][1]])]
                ELSE Append(m, (CHOOSE r \in Makes(m) : r[1] = u[1] /\ r[2] = u[2])[3])
RECURSIVE Steps(_, _, _)
Steps(m, h, i) == IF i > Len(h) THEN <<>> ELSE LET n == Result(m, h[i]) IN
  <<Step(h[i][1], h[i][2], Obs(n, SubSeq(h, 1, i)))>> \o Steps(n, h, i + 1)
EmitCases == Len(hist) = M => LET m == <<<<"V", L(mem[1]), IF \E k \in DOMAIN hist : hist[k] = <<"spoil", <<1>>>> THEN [i \in DOMAIN B(mem[1]) |-> Fit(Shape(Len(B(mem[1])))[i], lay)] ELSE B(mem[1])>>>> IN
  Emit(<<Step("start", <<lay, B(m[1])>>, Obs(m, <<>>))>> \o Steps(m, hist, 1))
=============================================================================
