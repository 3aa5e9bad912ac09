-------------------------------- MODULE Mat ---------------------------------
(* DE-9IM matrices: nine entries in row-major order, each F(-1), a dimension *)
(* 0, 1, 2, or (in patterns) T(-2) and * (-3); with a history of updates.    *)
EXTENDS Lat
CONSTANTS M, Vals          \* histories of M updates; entries of the enumerated matrices
VARIABLES mode, hist, mat
vars == <<mode, hist, mat>>
F == -1
T == -2
X == -3

Empty == [i \in 1..9 |-> F]
At(i, j) == (3 * i) + j + 1                \* rows and columns 0..2
Trans(m) == [k \in 1..9 |-> m[At((k - 1) % 3, (k - 1) \div 3)]]
Raise(v, w) == Max2(v, w)                \* DONTCARE < TRUE < FALSE < 0 < 1 < 2

Fits(v, c) == CASE c = X -> TRUE [] c = T -> v >= 0 \/ v = T [] OTHER -> v = c
Like(m, pat) == Len(pat) = 9 /\ \A k \in 1..9 : Fits(m[k], pat[k])

(* ------------------------ predicates as patterns ------------------------ *)
Disjoint(m) == Like(m, <<F, F, X, F, F, X, X, X, X>>)
Within(m)   == Like(m, <<T, X, F, X, X, F, X, X, X>>)
Contains(m) == Like(m, <<T, X, X, X, X, X, F, F, X>>)
Covers(m)   == \/ Like(m, <<T, X, X, X, X, X, F, F, X>>) \/ Like(m, <<X, T, X, X, X, X, F, F, X>>)
               \/ Like(m, <<X, X, X, T, X, X, F, F, X>>) \/ Like(m, <<X, X, X, X, T, X, F, F, X>>)
CoveredBy(m) == \/ Like(m, <<T, X, F, X, X, F, X, X, X>>) \/ Like(m, <<X, T, F, X, X, F, X, X, X>>)
                \/ Like(m, <<X, X, F, T, X, F, X, X, X>>) \/ Like(m, <<X, X, F, X, T, F, X, X, X>>)
Dims == {F, 0, 1, 2}
Touches(m, a, b) == /\ a >= 0 /\ b >= 0 /\ ~(a = 0 /\ b = 0)
                    /\ \/ Like(m, <<F, T, X, X, X, X, X, X, X>>) \/ Like(m, <<F, X, X, T, X, X, X, X, X>>)
                       \/ Like(m, <<F, X, X, X, T, X, X, X, X>>)
Crosses(m, a, b) ==
  IF a < 0 \/ b < 0 THEN FALSE
  ELSE IF a < b THEN Like(m, <<T, X, T, X, X, X, X, X, X>>)
  ELSE IF a > b THEN Like(m, <<T, X, X, X, X, X, T, X, X>>)
  ELSE a = 1 /\ Like(m, <<0, X, X, X, X, X, X, X, X>>)
Equals(m, a, b) == a = b /\ Like(m, <<T, X, F, X, X, F, F, F, X>>)
Overlaps(m, a, b) ==
  IF a # b \/ a < 0 THEN FALSE
  ELSE IF a = 1 THEN Like(m, <<1, X, T, X, X, X, T, X, X>>) ELSE Like(m, <<T, X, T, X, X, X, T, X, X>>)

(* -------------------------------- updates ------------------------------- *)
Over(m, s, f(_, _)) == [k \in 1..9 |-> IF k <= Len(s) THEN f(m[k], s[k]) ELSE m[k]]
Second(v, w) == w
Apply(m, u) ==
  CASE u[1] = "set"   -> [m EXCEPT ![At(u[2], u[3])] = u[4]]
    [] u[1] = "least" -> [m EXCEPT ![At(u[2], u[3])] = Raise(@, u[4])]
    [] u[1] = "all"   -> [k \in 1..9 |-> u[2]]
    [] u[1] = "str"   -> Over(m, u[2], Second)
    [] u[1] = "lstr"  -> Over(m, u[2], Raise)
    [] u[1] = "add"   -> [k \in 1..9 |-> Raise(m[k], u[2][k])]
    [] u[1] = "trans" -> Trans(m)

Ups == { <<"set", 0, 0, 2>>, <<"set", 1, 2, F>>, <<"set", 2, 1, T>>, <<"least", 0, 1, 1>>, <<"least", 2, 0, F>>, <<"least", 1, 1, T>>,
         <<"all", 0>>, <<"all", X>>, <<"str", <<2, 1, 2, F, 0, 1, F, F, 2>> >>, <<"str", <<T, X, F>> >>, <<"str", <<T, F, X, X, T, F, F, 1, X>> >>,
         <<"lstr", <<0, 1, 2, 2, 1, 0, F, T, X>> >>, <<"lstr", <<1, 1>> >>, <<"add", <<F, 2, F, 1, F, 0, 2, F, 1>> >>,
         <<"add", <<T, X, 0, F, F, F, 1, 1, 1>> >>, <<"trans">> }

Init == \/ mode = "hist" /\ hist = <<>> /\ mat = Empty
        \/ mode = "all" /\ hist = <<>> /\ \E w \in [1..7 -> {F} \cup Vals], v \in Dims, z \in {F} \cup (Vals \cap {2}) :
             mat = <<v, w[1], w[2], w[3], w[4], w[5], w[6], w[7], z>>
Next == \/ /\ mode = "hist" /\ Len(hist) < M
           /\ \E u \in Ups : hist' = Append(hist, u) /\ mat' = Apply(mat, u)
           /\ UNCHANGED mode
        \/ mode = "all" /\ mat' = Trans(mat) /\ UNCHANGED <<mode, hist>>
Spec == Init /\ [][Next]_vars

(* ------------------------------ properties ------------------------------ *)
TransposeLaws ==
  /\ Trans(Trans(mat)) = mat
  /\ Within(mat) <=> Contains(Trans(mat))
  /\ Covers(mat) <=> CoveredBy(Trans(mat))
  /\ Disjoint(mat) <=> Disjoint(Trans(mat))
  /\ \A a, b \in Dims : /\ Touches(mat, a, b) <=> Touches(Trans(mat), b, a)
                        /\ Crosses(mat, a, b) <=> Crosses(Trans(mat), b, a)
                        /\ Equals(mat, a, b) <=> Equals(Trans(mat), b, a)
                        /\ Overlaps(mat, a, b) <=> Overlaps(Trans(mat), b, a)
Actual == \A k \in 1..9 : mat[k] >= F
Implications ==
  /\ Within(mat) => CoveredBy(mat)
  /\ Contains(mat) => Covers(mat)
  /\ Actual => (Covers(mat) => ~Disjoint(mat)) /\ (\A a, b \in Dims : Touches(mat, a, b) => ~Disjoint(mat) /\ ~Within(mat) /\ ~Contains(mat))
  /\ \A a \in Dims : Equals(mat, a, a) => Within(mat) /\ Contains(mat) /\ ~Overlaps(mat, a, a)
Monotone == [][(\E u \in Ups : u[1] \in {"least", "lstr", "add"} /\ hist' = Append(hist, u)) => \A k \in 1..9 : mat'[k] >= mat[k]]_vars

(* ------------------------------ conformance ----------------------------- *)
DimSeq == <<F, 0, 1, 2>>
Bits(m, a, b) == Bit(Touches(m, a, b)) + 2 * Bit(Crosses(m, a, b)) + 4 * Bit(Equals(m, a, b)) + 8 * Bit(Overlaps(m, a, b))
Preds(m) == <<Bit(Disjoint(m)), Bit(~Disjoint(m)), Bit(Within(m)), Bit(Contains(m)), Bit(Covers(m)), Bit(CoveredBy(m)),
              [k \in 1..16 |-> Bits(m, DimSeq[1 + ((k - 1) \div 4)], DimSeq[1 + ((k - 1) % 4)])]>>
Query(op, a) ==
  CASE op = "preds" -> Preds(a[1])
    [] op = "like" -> Bit(Like(a[1], a[2]))
    [] op = "eq" -> Bit(a[1] = a[2])
    [] op = "fits" -> Bit(Fits(a[1], a[2]))
RECURSIVE Hist(_, _, _)
Hist(m, h, i) == IF i > Len(h) THEN <<>> ELSE LET n == Apply(m, h[i]) IN <<Step("up", h[i], n)>> \o Hist(n, h, i + 1)
Pats == { <<T, X, F, X, X, F, X, X, X>>, <<2, 1, 2, 1, 0, 1, 2, 1, 2>>, <<X, 0, T, F, F, 1, X, X, 2>>, <<F, F, X, F, F, X, X, X>>,
          <<F, F, X, F, F, X, X, X, X, X>>, <<X, X, X, X, X, X, X, X, T>>, <<1, X, T, X, X, X, T, X, X>> }
EmitCases ==
  IF mode = "hist" THEN Len(hist) = M => /\ Emit(Hist(Empty, hist, 1))
                                          /\ \A pat \in Pats : Emit(<<Step("like", <<mat, pat>>, Query("like", <<mat, pat>>))>>)
  ELSE Emit(<<Step("preds", <<mat>>, Preds(mat))>>)
=============================================================================
