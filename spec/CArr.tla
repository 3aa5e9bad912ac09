-------------------------------- MODULE CArr --------------------------------
(* Utilities on arrays of coordinates.  A coordinate is <<x, y, z, m>>; -99  *)
(* marks a missing height or measure, -98 an x or y that is not finite.      *)
(* The array t is built one coordinate at a time, u is a second array.       *)
EXTENDS Lat
CONSTANTS K, L             \* longest first and second array
VARIABLES t, u
vars == <<t, u>>
Nil == -99
Bad == -98

Same(a, b) == a[1] = b[1] /\ a[2] = b[2] /\ a[1] # Bad /\ a[2] # Bad
Valid(a) == a[1] # Bad /\ a[2] # Bad
Less(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
Cmp(a, b) == IF Less(a, b) THEN -1 ELSE IF Less(b, a) THEN 1 ELSE 0
RECURSIVE Dedup(_)
Dedup(v) == IF Len(v) < 2 THEN v
            ELSE LET d == Dedup(SubSeq(v, 1, Len(v) - 1))  c == v[Len(v)] IN IF Same(d[Len(d)], c) THEN d ELSE Append(d, c)
Repeated(v) == \E i \in 2..Len(v) : Same(v[i - 1], v[i])
Unsound(v) == Repeated(v) \/ \E i \in DOMAIN v : ~Valid(v[i])
Clean(v) == Dedup(SelectSeq(v, Valid))
IsRing(v) == Len(v) > 3 /\ Same(v[1], v[Len(v)])
Rotate(v, i) == [j \in 1..Len(v) |-> v[1 + ((j - 1 + i) % Len(v))]]
Scroll(v, i, ring) ==
  IF i = 0 \/ v = <<>> THEN v
  ELSE IF ring THEN LET w == Rotate(SubSeq(v, 1, Len(v) - 1), i) IN Append(w, w[1]) ELSE Rotate(v, i)
IndexOf(c, v) == IF \E i \in DOMAIN v : Same(v[i], c) THEN (CHOOSE i \in DOMAIN v : Same(v[i], c) /\ \A k \in 1..(i - 1) : ~Same(v[k], c)) - 1 ELSE -1
ScrollTo(v, c) == IF IndexOf(c, v) < 0 THEN v ELSE Scroll(v, IndexOf(c, v), IsRing(v))
Least(v) == IF v = <<>> THEN <<>> ELSE v[CHOOSE i \in DOMAIN v : /\ \A k \in DOMAIN v : ~Less(v[k], v[i])
                                                                /\ \A k \in 1..(i - 1) : Less(v[i], v[k])]
Box(v) == IF v = <<>> THEN <<>> ELSE LET xs == {v[i][1] : i \in DOMAIN v}  ys == {v[i][2] : i \in DOMAIN v} IN
          <<SetMin(xs), SetMax(xs), SetMin(ys), SetMax(ys)>>
Compare(v, w) ==
  LET n == Min2(Len(v), Len(w)) IN
  IF \E i \in 1..n : Cmp(v[i], w[i]) # 0
  THEN LET i == CHOOSE i \in 1..n : Cmp(v[i], w[i]) # 0 /\ \A k \in 1..(i - 1) : Cmp(v[k], w[k]) = 0 IN Cmp(v[i], w[i])
  ELSE Sgn(Len(v) - Len(w))
Equal(v, w) == Len(v) = Len(w) /\ \A i \in DOMAIN v : Same(v[i], w[i])
Increasing(v) == LET c == Compare(v, Rev(v)) IN IF c = 0 THEN 1 ELSE c
Missing(v, w) == IF \E i \in DOMAIN v : IndexOf(v[i], w) < 0
                 THEN v[CHOOSE i \in DOMAIN v : IndexOf(v[i], w) < 0 /\ \A k \in 1..(i - 1) : IndexOf(v[k], w) >= 0] ELSE <<>>
Extract(v, a, b) == SubSeq(v, a + 1, Min2(b + 1, Len(v)))
CopyTo(src, a, dst, b, n) == [j \in DOMAIN dst |-> IF j > b /\ j <= b + n THEN src[a + j - b] ELSE dst[j]]
AtLeast(n, v) == IF Len(v) >= n THEN v ELSE <<>>
Inside(v, e) == SelectSeq(v, LAMBDA c : InBox(c, <<e[1], e[3]>>, <<e[2], e[4]>>))
Dim(c) == 2 + Bit(c[3] # Nil) + Bit(c[4] # Nil)
Meas(c) == Bit(c[4] # Nil)
Dims(v) == IF v = <<>> THEN <<3, 0>> ELSE <<SetMax({Dim(v[i]) : i \in DOMAIN v}), SetMax({Meas(v[i]) : i \in DOMAIN v})>>
(* into a layout: no ordinate the layout has is lost; a measure it misses is up to the code *)
Fit(v, d, m) == [i \in DOMAIN v |-> <<v[i][1], v[i][2], IF d - m > 2 THEN v[i][3] ELSE Nil,
                                     IF m = 0 THEN Nil ELSE IF v[i][4] = Nil THEN "*" ELSE v[i][4]>>]
Agree(v) == \A i, j \in DOMAIN v : Dim(v[i]) = Dim(v[j]) /\ Meas(v[i]) = Meas(v[j])
Unify(v) == IF Agree(v) THEN v ELSE
  [i \in DOMAIN v |-> <<v[i][1], v[i][2], v[i][3], IF v[i][4] = Nil THEN (IF \E j \in DOMAIN v : Meas(v[j]) = 1 THEN "*" ELSE Nil) ELSE v[i][4]>>]

(* ------------------------------- behaviours ----------------------------- *)
Planar == {<<0, 0>>, <<1, 0>>, <<0, 1>>}
Tag(w, i) == <<w[1], w[2], IF i % 3 = 1 THEN Nil ELSE 9 + i, IF i % 2 = 0 THEN Nil ELSE 19 + i>>
Init == t = <<>> /\ u = <<>>
Next == \/ Len(t) < K /\ u = <<>> /\ \E w \in Planar : t' = Append(t, Tag(w, Len(t))) /\ u' = u
        \/ Len(u) < L /\ \E w \in Planar : u' = Append(u, Tag(w, Len(u) + 1)) /\ t' = t
Spec == Init /\ [][Next]_vars

(* ------------------------------ properties ------------------------------ *)
Sub(v, w) == \E f \in [DOMAIN v -> DOMAIN w] : (\A i \in DOMAIN v : v[i] = w[f[i]]) /\ \A i, j \in DOMAIN v : i < j => f[i] < f[j]
DedupLaws == u = <<>> =>
  /\ Dedup(Dedup(t)) = Dedup(t) /\ ~Repeated(Dedup(t)) /\ (~Repeated(t) => Dedup(t) = t)
  /\ {<<Dedup(t)[i][1], Dedup(t)[i][2]>> : i \in DOMAIN Dedup(t)} = {<<t[i][1], t[i][2]>> : i \in DOMAIN t}
  /\ Len(t) < 5 => Sub(Dedup(t), t)
Plain(v) == [i \in DOMAIN v |-> <<v[i][1], v[i][2]>>]
OrderLaws == /\ Compare(t, u) = -Compare(u, t)
             /\ (Compare(t, u) = 0) = Equal(t, u)
             /\ Equal(t, u) = (Plain(t) = Plain(u))
             /\ \A i \in 0..Len(t) : Compare(SubSeq(t, 1, i), t) = (IF i < Len(t) THEN -1 ELSE 0)
             /\ \A w \in {Rev(t), Rev(u), <<>>} : (Compare(t, u) <= 0 /\ Compare(u, w) <= 0) => Compare(t, w) <= 0
Direction == u = <<>> => (Plain(t) # Plain(Rev(t)) => Increasing(Rev(t)) = -Increasing(t))
Pieces == u = <<>> => \A i \in 0..(Len(t) - 1) :
  /\ Extract(t, 0, i) \o Extract(t, i + 1, Len(t) + 3) = t
  /\ IsRing(t) => IsRing(Scroll(t, i, TRUE))
  /\ ScrollTo(t, t[i + 1]) # <<>> /\ Same(ScrollTo(t, t[i + 1])[1], t[i + 1])

(* ------------------------------ conformance ----------------------------- *)
Query(op, a) ==
  CASE op = "facts"   -> <<Bit(IsRing(a[1])), Bit(Repeated(a[1])), Dedup(a[1]), Box(a[1]), Least(a[1]), Dims(a[1]), Increasing(a[1])>>
    [] op = "clean"   -> <<Bit(Unsound(a[1])), Clean(a[1])>>
    [] op = "cmp"     -> <<Compare(a[1], a[2]), Bit(Equal(a[1], a[2])), Missing(a[1], a[2])>>
    [] op = "eqrev"   -> Bit(Equal(a[1], Rev(a[2])))
    [] op = "extract" -> Extract(a[1], a[2], a[3])
    [] op = "copyto"  -> CopyTo(a[1], a[2], a[3], a[4], a[5])
    [] op = "atleast" -> AtLeast(a[1], a[2])
    [] op = "scroll"  -> <<Scroll(a[1], a[2], IsRing(a[1])), Scroll(a[1], a[2], FALSE)>>
    [] op = "sring"   -> Scroll(a[1], a[2], TRUE)
    [] op = "to"      -> <<IndexOf(a[2], a[1]), ScrollTo(a[1], a[2])>>
    [] op = "inside"  -> Inside(a[1], a[2])
    [] op = "fit"     -> <<Fit(a[1], a[2], a[3]), [i \in DOMAIN a[1] |-> a[3]]>>
    [] op = "unify"   -> <<Unify(a[1]), [i \in DOMAIN a[1] |-> Dims(a[1])[2]]>>
One(op, a) == Emit(<<Step(op, a, Query(op, a))>>)
Hit(v, i) == [v EXCEPT ![i][1 + (i % 2)] = Bad]
EmitCases ==
  /\ u = <<>> =>
       /\ One("facts", <<t>>) /\ One("clean", <<t>>) /\ One("unify", <<t>>)
       /\ \A i \in DOMAIN t : One("clean", <<Hit(t, i)>>)
       /\ \A i \in DOMAIN t : Len(t) < 5 => One("clean", <<Hit(Hit(t, i), Len(t))>>)
       /\ \A i \in 0..(Len(t) - 1) : One("scroll", <<t, i>>)
       /\ IsRing(t) => \A i \in 1..(Len(t) - 1) : One("sring", <<t, i>>)
       /\ \A w \in Planar : One("to", <<t, <<w[1], w[2], 3, Nil>>>>)
       /\ \A e \in {<<0, 0, 0, 0>>, <<0, 1, 0, 0>>, <<1, 2, -1, 5>>} : One("inside", <<t, e>>)
       /\ \A i \in 0..(Len(t) + 1) : \A j \in {i - 1, i, i + 1, Len(t) - 1, Len(t), Len(t) + 2} : j >= 0 => One("extract", <<t, i, j>>)
       /\ \A n \in {0, Len(t), Len(t) + 1} : One("atleast", <<n, t>>)
       /\ \A f \in {<<2, 0>>, <<3, 0>>, <<3, 1>>, <<4, 1>>} : One("fit", <<t, f[1], f[2]>>)
  /\ u # <<>> =>
       /\ One("cmp", <<t, u>>) /\ One("cmp", <<u, t>>)
       /\ Len(t) = Len(u) => One("eqrev", <<t, u>>)
       /\ \A k \in {Min2(Len(t), Len(u)) - 1, 1} \cap 0..Min2(Len(t), Len(u)) : One("copyto", <<t, Len(t) - k, u, (Len(u) - k) \div 2, k>>)
=============================================================================
