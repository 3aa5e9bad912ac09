------------------------------- MODULE Order --------------------------------
(* The orderings and equalities of coordinates, rectangles, segments,        *)
(* coordinate sequences, lines, rings, polygons and precision models.        *)
(* -99 is a missing (NaN) ordinate, which orders below every number.         *)
EXTENDS Lat
CONSTANTS Kinds
VARIABLES kind, a, b, two
vars == <<kind, a, b, two>>
Nil == -99

Num(x, y) == Sgn(x - y)
(* lexicographic comparison of two sequences, a proper prefix first *)
Lex(v, w, Cmp(_, _)) ==
  LET n == Min2(Len(v), Len(w)) IN
  IF \E i \in 1..n : Cmp(v[i], w[i]) # 0
  THEN LET i == CHOOSE i \in 1..n : Cmp(v[i], w[i]) # 0 /\ \A k \in 1..(i - 1) : Cmp(v[k], w[k]) = 0 IN Cmp(v[i], w[i])
  ELSE Sgn(Len(v) - Len(w))
Planar(c, d) == Lex(<<c[1], c[2]>>, <<d[1], d[2]>>, Num)
Pts(v, w) == Lex(v, w, Planar)
EnvCmp(e, f) == Lex(e, f, Num)                 \* <<minx, miny, maxx, maxy>>, null is <<>>
SegCmp(s, t) == Lex(s, t, Planar)
PolyCmp(p, q) == LET s == Pts(p[1], q[1]) IN IF s # 0 THEN s ELSE Lex(Tail(p), Tail(q), Pts)
(* sequences with layouts, limited to the first lim ordinates when both have them *)
Dim(ly) == CASE ly = "XY" -> 2 [] ly = "XYZM" -> 4 [] OTHER -> 3
Ords(c, n) == SubSeq(c, 1, n)
SeqCmp(v, w, lim) ==
  LET m == Min2(Dim(v[1]), Dim(w[1]))
      limited == lim > 0 /\ lim <= m
      n == IF limited THEN lim ELSE m IN
  IF ~limited /\ Dim(v[1]) # Dim(w[1]) THEN Sgn(Dim(v[1]) - Dim(w[1]))
  ELSE LET C(c, d) == Lex(Ords(c, n), Ords(d, n), Num) IN Lex(v[2], w[2], C)
(* polygons whose rings are such sequences *)
LayCmp(p, q, lim) == LET C(v, w) == SeqCmp(v, w, lim)  s == C(p[1], q[1]) IN IF s # 0 THEN s ELSE Lex(Tail(p), Tail(q), C)
(* models are <<"F">>, <<"S">> or <<"X", n, d>> with the scale n/d *)
Pow10 == <<1, 10, 100, 1000, 10000, 100000, 1000000>>
Digits(m) == CASE m[1] = "F" -> 16 [] m[1] = "S" -> 6
               [] OTHER -> IF m[2] * 10 <= m[3] THEN (IF m[2] * 100 <= m[3] THEN -1 ELSE 0)
                           ELSE 1 + (CHOOSE k \in 0..6 : Pow10[k + 1] * m[3] >= m[2] /\ \A j \in 0..(k - 1) : Pow10[j + 1] * m[3] < m[2])
ModelCmp(m, n) == Num(Digits(m), Digits(n))

Cmp(k, v, w) ==
  CASE k = "coord" -> Planar(v, w)
    [] k = "env"   -> EnvCmp(v, w)
    [] k = "seg"   -> SegCmp(v, w)
    [] k = "seq0"  -> SeqCmp(v, w, 0)
    [] k = "seq2"  -> SeqCmp(v, w, 2)
    [] k = "seq3"  -> SeqCmp(v, w, 3)
    [] k = "line"  -> Pts(v, w)
    [] k = "point" -> Pts(v, w)
    [] k = "poly"  -> PolyCmp(v, w)
    [] k = "lpoly0" -> LayCmp(v, w, 0)
    [] k = "lpoly2" -> LayCmp(v, w, 2)
    [] k = "model" -> ModelCmp(v, w)

(* ------------------------------ equalities ------------------------------ *)
Within(x, y, t) == x # Nil /\ y # Nil /\ 2 * Abs(x - y) <= t          \* tolerances in halves
Near(c, d, t) == IF t = 0 THEN Planar(c, d) = 0 ELSE 4 * Dist2(c, d) <= t * t
CoordEq(c, d, t) == <<Bit(Planar(c, d) = 0), Bit(Planar(c, d) = 0 /\ c[3] = d[3]),
                      Bit(Within(c[1], d[1], t) /\ Within(c[2], d[2], t)), Bit(Within(c[3], d[3], t))>>
AllNear(v, w, t) == Len(v) = Len(w) /\ \A i \in DOMAIN v : Near(v[i], w[i], t)
SegEq(s, t) == <<Bit(s = t \/ s = Rev(t))>>
PolyEq(p, q, t) == Len(p) = Len(q) /\ \A i \in DOMAIN p : AllNear(p[i], q[i], t)

(* ------------------------------- behaviours ----------------------------- *)
P2 == {<<x, y>> : x \in 0..1, y \in 0..1}
Seqs(S, n) == UNION {[1..k -> S] : k \in 0..n}
Val(k) ==
  CASE k = "coord" -> {<<x, y, z>> : x \in 0..1, y \in 0..1, z \in {Nil, 0, 2}}
    [] k = "env"   -> {<<>>} \cup {e \in (0..2) \X (0..2) \X (0..2) \X (0..2) : e[1] <= e[3] /\ e[2] <= e[4]}
    [] k = "seg"   -> {<<p, q>> : p \in P2, q \in P2}
    [] k \in {"seq0", "seq2", "seq3"} ->
         {<<"XY", t>> : t \in Seqs({<<0, 0>>, <<0, 1>>, <<1, 0>>}, 2)}
         \cup {<<ly, t>> : ly \in {"XYZ", "XYM"}, t \in Seqs({<<0, 0, Nil>>, <<0, 0, 1>>, <<0, 1, 0>>}, 2)}
         \cup {<<"XYZM", t>> : t \in Seqs({<<0, 0, 1, Nil>>, <<0, 0, 1, 1>>, <<0, 0, Nil, 0>>}, 2)}
    [] k = "line"  -> Seqs(P2, 3)
    [] k = "point" -> Seqs(P2, 1)
    [] k = "poly"  -> LET R == {<<>>, <<<<0, 0>>, <<1, 0>>>>, <<<<0, 0>>, <<1, 0>>, <<0, 0>>>>, <<<<0, 1>>, <<1, 0>>>>} IN
                      {<<s>> \o h : s \in R, h \in Seqs(R, 2)}
    [] k \in {"lpoly0", "lpoly2"} ->
         LET R == {<<"XY", <<<<0, 0>>>>>>} \cup {<<"XYZ", t>> : t \in {<<>>, <<<<0, 0, 1>>>>, <<<<0, 0, Nil>>>>, <<<<0, 1, 0>>, <<0, 0, 0>>>>}} IN
         {<<s>> \o h : s \in R, h \in Seqs(R, 1)} \cup {<<s, s, t>> : s \in R, t \in R}
    [] k = "model" -> {<<"F">>, <<"S">>} \cup {<<"X", n, d>> : n \in {1, 2, 5, 30, 99, 101, 123456, 999999}, d \in {1, 3, 7}} \cup {<<"X", 1, 20>>, <<"X", 3, 20>>}
Init == kind \in Kinds /\ a \in Val(kind) /\ b = <<>> /\ two = FALSE
Next == ~two /\ b' \in Val(kind) /\ two' = TRUE /\ UNCHANGED <<kind, a>>
Spec == Init /\ [][Next]_vars
Paired == two

(* ------------------------------ properties ------------------------------ *)
Preorder == Paired =>
  /\ Cmp(kind, a, b) \in {-1, 0, 1}
  /\ Cmp(kind, a, a) = 0
  /\ Cmp(kind, b, a) = -Cmp(kind, a, b)
  /\ (kind # "line" \/ Len(a) < 3) => \A c \in Val(kind) : (Cmp(kind, a, b) <= 0 /\ Cmp(kind, b, c) <= 0) => Cmp(kind, a, c) <= 0
ZeroIsEqual == Paired =>
  /\ kind \in {"env", "seg", "line", "point", "poly"} => (Cmp(kind, a, b) = 0) = (a = b)
  /\ (kind = "seq0" /\ a[1] = b[1]) => (Cmp(kind, a, b) = 0) = (a = b)
  /\ kind = "coord" => (Cmp(kind, a, b) = 0) = (CoordEq(a, b, 0)[1] = 1)
  /\ kind = "coord" => CoordEq(a, b, 0)[2] <= CoordEq(a, b, 0)[1] /\ CoordEq(a, b, 0)[3] = CoordEq(a, b, 0)[1]

(* ------------------------------ conformance ----------------------------- *)
Query(op, x) ==
  CASE op = "cmp"   -> Cmp(x[1], x[2], x[3])
    [] op = "ceq"   -> CoordEq(x[1], x[2], x[3])
    [] op = "segeq" -> SegEq(x[1], x[2]) \o <<Bit(x[1] = x[2])>>
    [] op = "lineq" -> Bit(AllNear(x[1], x[2], x[3]))
    [] op = "polyq" -> Bit(PolyEq(x[1], x[2], x[3]))
    [] op = "digits" -> Digits(x[1])
One(op, x) == Emit(<<Step(op, x, Query(op, x))>>)
EmitCases == Paired =>
  /\ One("cmp", <<kind, a, b>>)
  /\ kind = "coord" => \A t \in 0..4 : One("ceq", <<a, b, t>>)
  /\ kind = "seg" => One("segeq", <<a, b>>)
  /\ (kind = "line" /\ Len(a) < 3) => \A t \in {0, 1, 3} : One("lineq", <<a, b, t>>)
  /\ kind = "poly" => \A t \in {0, 1, 3} : One("polyq", <<a, b, t>>)
  /\ kind = "model" => One("digits", <<a>>)
=============================================================================
