----------------------------- MODULE RingOrient -----------------------------
(* The orientation of a ring, for rings drawn vertex by vertex.  The        *)
(* definition is the sign of the enclosed area; the model also carries the  *)
(* turn at the highest vertex, which decides the same for simple rings.     *)
EXTENDS Ring
CONSTANTS N, K
VARIABLES v, closed
vars == <<v, closed>>
Pts == (0..N) \X (0..N)

Init == v = <<>> /\ closed = FALSE
Add(p) == ~closed /\ Len(v) < K /\ v' = Append(v, p) /\ closed' = FALSE
Close == ~closed /\ closed' = TRUE /\ UNCHANGED v
Next == Close \/ \E p \in Pts : Add(p)
Spec == Init /\ [][Next]_vars
r == Cl(v)

(* ---------------- classes of rings for which the answer is promised ------ *)
(* a maximal run of consecutive vertices at the top is replaced by its ends *)
TopY(w) == SetMax({w[i][2] : i \in DOMAIN w})
RECURSIVE DropInner(_, _, _)
DropInner(w, i, h) ==      \* w starts at a vertex below the top
  IF i > Len(w) THEN <<>>
  ELSE IF w[i][2] = h /\ w[i - 1][2] = h /\ i < Len(w) /\ w[i + 1][2] = h THEN DropInner(w, i + 1, h)
  ELSE <<w[i]>> \o DropInner(w, i + 1, h)
Flatten(w) ==
  IF w = <<>> \/ \A i \in DOMAIN w : w[i][2] = TopY(w) THEN w
  ELSE LET k == CHOOSE k \in DOMAIN w : w[k][2] < TopY(w)
           x == DropInner(Rot(w, k - 1), 1, TopY(w)) IN Distinct(Cl(x))
Mild(x) == Len(x) >= 4 /\ SimpleV(Flatten(Distinct(x)))
Level(x) == x = <<>> \/ \A i \in DOMAIN x : x[i][2] = x[1][2]
(* 1: promised under every embedding, 2: promised when the ring is upright, 0: not promised *)
Kind(x) == IF Collinear(x) THEN 1 ELSE IF Simple(x) THEN 1 ELSE IF Mild(x) THEN 2 ELSE 0
IsCCW(x) == IF Collinear(x) THEN FALSE ELSE IF Simple(x) THEN Area2(x) > 0 ELSE Area2(Cl(Flatten(Distinct(x)))) > 0

(* ------------------------------ properties ------------------------------ *)
(* turn at the highest, then rightmost vertex of a simple ring *)
TopTurn(x) == LET w == Distinct(x)  n == Len(w)
                  k == CHOOSE k \in 1..n : \A j \in 1..n : w[j][2] < w[k][2] \/ (w[j][2] = w[k][2] /\ w[j][1] <= w[k][1])
                  IN Orient(w[((k - 2) % n) + 1], w[k], w[(k % n) + 1])
TurnDecides == closed /\ Simple(r) => TopTurn(r) = Sgn(Area2(r)) /\ TopTurn(r) # 0
ReverseFlips == closed => /\ Area2(Rev(r)) = -Area2(r)
                          /\ Kind(Rev(r)) = Kind(r)
                          /\ (Kind(r) # 0 /\ ~Collinear(r)) => (IsCCW(Rev(r)) <=> ~IsCCW(r))
StartIrrelevant == closed /\ Len(v) > 1 =>
  LET x == Cl(Rot(v, 1)) IN Area2(x) = Area2(r) /\ Kind(x) = Kind(r) /\ (Kind(r) # 0 => IsCCW(x) = IsCCW(r))
FlatIsNot == closed /\ Level(r) => ~IsCCW(r) /\ Area2(r) = 0

Query(op, a) ==
  LET x == a[1]  k == Kind(x) IN
  CASE op = "ccw" -> <<IF k = 0 THEN "*" ELSE Bit(IsCCW(x)), IF k = 0 THEN "*" ELSE Bit(IsCCW(Rev(x))),
                       Bit(Area2(x) > 0), Bit(Area2(x) < 0)>>
EmitCases == closed => Emit(<<Step("ccw", <<r, Kind(r)>>, Query("ccw", <<r>>))>>)
=============================================================================
