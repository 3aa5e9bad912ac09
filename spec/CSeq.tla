-------------------------------- MODULE CSeq --------------------------------
(* Coordinate sequences.  A coordinate is a tuple of its ordinates in the    *)
(* order X, Y, [Z], [M]; a layout says which of them there are.  NaN (-99)   *)
(* marks a missing height or measure.                                        *)
EXTENDS Lat
CONSTANTS K, M             \* sequences of up to K coordinates, M operations
VARIABLES lay, orig, hist, sq
vars == <<lay, orig, hist, sq>>
NaN == -99

Layouts == {"XY", "XYZ", "XYM", "XYZM"}
Dim(ly) == CASE ly = "XY" -> 2 [] ly = "XYZM" -> 4 [] OTHER -> 3
Same(a, b) == a[1] = b[1] /\ a[2] = b[2]

(* ------------------------------ operations ------------------------------ *)
At(t, i) == t[i + 1]                                   \* 0-based access
Take(n, f(_)) == [j \in 1..n |-> f(j - 1)]
Swap(t, i, j) == [t EXCEPT ![i + 1] = t[j + 1], ![j + 1] = t[i + 1]]
IsRing(t) == t = <<>> \/ (Len(t) > 3 /\ Same(t[1], t[Len(t)]))
Pad(t, n, c) == [j \in 1..Max2(n, Len(t)) |-> IF j <= Len(t) THEN t[j] ELSE c]
EnsureRing(t) == IF t = <<>> \/ IsRing(t) THEN t ELSE IF Len(t) <= 3 THEN Pad(t, 4, t[1]) ELSE Append(t, t[1])
Extend(t, n) == Pad(t, n, t[Len(t)])
Rotate(t, i) == [j \in 1..Len(t) |-> t[1 + ((j - 1 + i) % Len(t))]]
Scroll(t, i, ring) ==
  IF i = 0 \/ t = <<>> THEN t
  ELSE IF ring THEN LET u == Rotate(SubSeq(t, 1, Len(t) - 1), i) IN Append(u, u[1]) ELSE Rotate(t, i)
IndexOf(c, t) == IF \E i \in DOMAIN t : Same(t[i], c) THEN (CHOOSE i \in DOMAIN t : Same(t[i], c) /\ \A k \in 1..(i - 1) : ~Same(t[k], c)) - 1 ELSE -1
ScrollTo(t, c) == IF IndexOf(c, t) < 0 THEN t ELSE Scroll(t, IndexOf(c, t), IsRing(t))
CopyRange(src, a, dst, b, n) == [j \in DOMAIN dst |-> IF j - 1 >= b /\ j - 1 < b + n THEN src[a + j - b] ELSE dst[j]]
(* between layouts, the common leading ordinates are copied *)
Merge(c, d) == [k \in DOMAIN d |-> IF k <= Len(c) THEN c[k] ELSE d[k]]
CopyLay(src, a, dst, b, n) == [j \in DOMAIN dst |-> IF j - 1 >= b /\ j - 1 < b + n THEN Merge(src[a + j - b], dst[j]) ELSE dst[j]]
(* sequences of different layouts are equal when their common leading ordinates are *)
EqLay(t, u) == /\ Len(t) = Len(u)
               /\ \A i \in DOMAIN t : \A k \in 1..SetMin({Len(t[i]), Len(u[i])}) : t[i][k] = u[i][k]
Mixes(ly, lz) == ly = "XY" \/ lz = "XY" \/ ly = lz \/ (ly # "XYM" /\ lz # "XYM")
MinIndex(t, a, b) == CHOOSE i \in a..b : /\ \A k \in a..b : ~LexLess(t[k + 1], t[i + 1])
                                         /\ \A k \in a..(i - 1) : LexLess(t[i + 1], t[k + 1])
Box(t) == IF t = <<>> THEN <<>> ELSE LET xs == {t[i][1] : i \in DOMAIN t}  ys == {t[i][2] : i \in DOMAIN t} IN
          <<SetMin(xs), SetMax(xs), SetMin(ys), SetMax(ys)>>

Apply(t, u) ==
  CASE u[1] = "set"    -> [t EXCEPT ![u[2] + 1][u[3] + 1] = u[4]]
    [] u[1] = "swap"   -> Swap(t, u[2], u[3])
    [] u[1] = "rev"    -> Rev(t)
    [] u[1] = "copy"   -> CopyRange(u[2], u[3], t, u[4], u[5])
    [] u[1] = "self"   -> CopyRange(t, u[2], t, u[3], u[4])
    [] u[1] = "scroll" -> Scroll(t, u[2], IsRing(t))
    [] u[1] = "force"  -> Scroll(t, u[2], u[3] = 1)
    [] u[1] = "to"     -> ScrollTo(t, u[2])
    [] u[1] = "ring"   -> EnsureRing(t)
    [] u[1] = "extend" -> Extend(t, u[2])
    [] u[1] = "clone"  -> t

Lay(c, ly) == CASE ly = "XY" -> <<c[1], c[2]>> [] ly = "XYZ" -> <<c[1], c[2], c[3]>> [] ly = "XYM" -> <<c[1], c[2], c[4]>> [] ly = "XYZM" -> c
Planar == {<<0, 0>>, <<1, 0>>, <<0, 1>>}
Ups(t) == {<<"rev">>, <<"ring">>, <<"clone">>}
     \cup {<<"swap", i, j>> : i \in {0, 1} \cap 0..(Len(t) - 1), j \in 0..(Len(t) - 1)}
     \cup {<<"scroll", i>> : i \in 0..(Len(t) - 1)}
     \cup {<<"force", i, b>> : i \in 1..(Len(t) - 1), b \in {0, 1}}
     \cup {<<"to", Lay(<<c[1], c[2], 7, 8>>, lay)>> : c \in Planar}
     \cup {<<"extend", Len(t) + k>> : k \in IF t = <<>> THEN {} ELSE {0, 2, 2 * Len(t) + 1}}
     \cup {<<"set", i, k - 1, 5>> : i \in {0, Len(t) - 1} \cap 0..(Len(t) - 1), k \in 1..Dim(lay)}
     \cup {<<"copy", orig, a, b, 2>> : a \in {0, 1} \cap 0..(Len(orig) - 2), b \in {0, 1} \cap 0..(Len(t) - 2)}
     \cup {<<"self", a, b, 2>> : a \in {0} \cap 0..(Len(t) - 2), b \in {2} \cap 0..(Len(t) - 2)}

Build(w, ly) == [i \in DOMAIN w |-> Lay(<<w[i][1], w[i][2], 9 + i, IF i = 2 THEN NaN ELSE 19 + i>>, ly)]
Init == /\ lay \in Layouts
        /\ \E n \in 0..K : \E w \in [1..n -> Planar] : orig = Build(w, lay)
        /\ hist = <<>> /\ sq = orig
Next == /\ Len(hist) < M
        /\ \E u \in Ups(sq) : hist' = Append(hist, u) /\ sq' = Apply(sq, u)
        /\ UNCHANGED <<lay, orig>>
Spec == Init /\ [][Next]_vars

(* ------------------------------ properties ------------------------------ *)
Bag(t) == [c \in {t[i] : i \in DOMAIN t} |-> Cardinality({i \in DOMAIN t : t[i] = c})]
TwiceBack == /\ Rev(Rev(sq)) = sq
             /\ sq # <<>> => Swap(Swap(sq, 0, Len(sq) - 1), 0, Len(sq) - 1) = sq
             /\ EnsureRing(EnsureRing(sq)) = EnsureRing(sq)
             /\ IsRing(EnsureRing(sq))
             /\ \A i \in 0..(Len(sq) - 1) : ~IsRing(sq) => Scroll(Scroll(sq, i, FALSE), (Len(sq) - i) % Len(sq), FALSE) = sq
Rearranged == [][hist'[Len(hist')][1] \in {"swap", "rev", "clone"} => Bag(sq') = Bag(sq)]_vars
StaysRing == [][(hist'[Len(hist')][1] \in {"scroll", "to"} /\ IsRing(sq)) => IsRing(sq')]_vars
Uniform == \A i \in DOMAIN sq : Len(sq[i]) = Dim(lay)

(* ------------------------------ conformance ----------------------------- *)
(* a query names the layout first *)
Facts(t) == <<Bit(IsRing(t)), IF t = <<>> THEN "none" ELSE MinIndex(t, 0, Len(t) - 1), Box(t), t>>
(* freshly allocated: size, ordinates, measures for the two array routes and the packed one; *)
(* a number of ordinates or measures the array-backed kind does not have is clipped          *)
Clip(x, lo, hi) == Max2(lo, Min2(hi, x))
ClipM(d, m) == LET k == Min2(m, 1) IN <<Clip(d - m, 2, 3) + k, k>>
Alloc(n, d, m) == << <<n>> \o ClipM(d, m), <<n, Clip(d, 2, 3), 0>>, <<n, d, m>>, <<n, d, Max2(0, d - 3)>> >>
Query(op, a) ==
  CASE op = "facts" -> Facts(a[2])
    [] op = "find"  -> IndexOf(a[2], a[3])
    [] op = "minin" -> MinIndex(a[2], a[3], a[4])
    [] op = "eq"    -> Bit(a[2] = a[3])
    [] op = "xeq"   -> Bit(EqLay(a[2], a[4]))
    [] op = "alloc" -> Alloc(a[1], a[2], a[3])
    [] op = "xcopy" -> CopyLay(a[2], a[4], a[5], a[6], a[7])
RECURSIVE Hist(_, _, _)
Hist(t, h, i) == IF i > Len(h) THEN <<>> ELSE LET n == Apply(t, h[i]) IN <<Step("up", h[i], n)>> \o Hist(n, h, i + 1)
Behave(ly, t, h) == Emit(<<Step("init", <<ly, t>>, t)>> \o Hist(t, h, 1))
One(op, a) == Emit(<<Step(op, a, Query(op, a))>>)
EmitCases ==
  /\ Len(hist) = M => Behave(lay, orig, hist)
  /\ hist = <<>> /\ M < 3 => /\ One("facts", <<lay, sq>>)
                    /\ \A c \in Planar : One("find", <<lay, Lay(<<c[1], c[2], 7, 8>>, lay), sq>>)
                    /\ \A i \in 0..(Len(sq) - 1) : One("minin", <<lay, sq, i, Len(sq) - 1>>)
  /\ hist = <<>> /\ M < 3 /\ sq = <<>> /\ lay = "XY" =>
        \A n \in 0..2 : \A d \in 1..6 : \A m \in 0..3 : One("alloc", <<n, d, m>>)
  /\ hist # <<>> /\ M < 3 => One("eq", <<lay, orig, sq>>)
  /\ hist = <<>> /\ M < 3 /\ Len(sq) < 4 =>
        \A lz \in Layouts : Mixes(lay, lz) =>
           LET u == Build([i \in DOMAIN sq |-> <<sq[i][1], sq[i][2]>>], lz) IN
           /\ \A i \in DOMAIN sq : LET v == [sq EXCEPT ![i][1] = NaN, ![i][2] = NaN] IN One("eq", <<lay, v, v>>) /\ One("eq", <<lay, v, sq>>) /\ One("eq", <<lay, v, [v EXCEPT ![i][2] = 0]>>)
           /\ One("xeq", <<lay, sq, lz, u>>)
           /\ \A i \in DOMAIN u : \A k \in DOMAIN u[i] : One("xeq", <<lay, sq, lz, [u EXCEPT ![i][k] = 5]>>)
=============================================================================
