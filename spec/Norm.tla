-------------------------------- MODULE Norm --------------------------------
(* Normal forms.  The transitions are what normalisation must forget: the    *)
(* direction of a line or segment, start and direction of each ring of a     *)
(* polygon and the order of its holes; and normalisation itself.             *)
(* A coordinate is <<x, y, height>>.  A polygon is a sequence of open vertex *)
(* lists, shell first.                                                       *)
EXTENDS Ring
CONSTANTS N, K, H
VARIABLES kind, body
vars == <<kind, body>>

(* ------------------------------ meaning --------------------------------- *)
Less(c, d) == LexLess(c, d)
Cmp(c, d) == IF Less(c, d) THEN -1 ELSE IF Less(d, c) THEN 1 ELSE 0
RECURSIVE CmpSeq(_, _)
CmpSeq(s, t) == IF s = <<>> /\ t = <<>> THEN 0 ELSE IF s = <<>> THEN -1 ELSE IF t = <<>> THEN 1
                ELSE IF Cmp(s[1], t[1]) # 0 THEN Cmp(s[1], t[1]) ELSE CmpSeq(Tail(s), Tail(t))
NormLine(t) == IF CmpSeq(t, Rev(t)) > 0 THEN Rev(t) ELSE t
First(v) == CHOOSE i \in DOMAIN v : \A j \in DOMAIN v : ~Less(v[j], v[i])
Turned(v) == IF Len(v) < 2 THEN v ELSE <<v[1]>> \o Rev(Tail(v))
NormRing(v, cw) == IF v = <<>> THEN v ELSE LET w == Rot(v, First(v) - 1) IN IF (Area2(Cl(w)) > 0) = cw THEN Turned(w) ELSE w
RECURSIVE Sorted(_)
Sorted(s) == IF s = <<>> THEN <<>> ELSE LET i == CHOOSE i \in DOMAIN s : \A j \in DOMAIN s : CmpSeq(s[i], s[j]) <= 0 IN
             <<s[i]>> \o Sorted([j \in 1..(Len(s) - 1) |-> s[IF j < i THEN j ELSE j + 1]])
NormPoly(p) == IF p = <<>> THEN p ELSE <<NormRing(p[1], TRUE)>> \o Sorted([i \in 1..(Len(p) - 1) |-> NormRing(p[i + 1], FALSE)])
Norm(k, b) == CASE k = "A" -> NormPoly(b) [] OTHER -> NormLine(b)

(* ------------------------------ behaviours ------------------------------ *)
Pts == {<<x, y, 10 * x + y>> : x \in 0..N, y \in 0..N}
Seqs(S, n) == UNION {[1..k -> S] : k \in 0..n}
Lines == UNION {{[i \in 1..k |-> <<t[i][1], t[i][2], 50 + i>>] : t \in [1..k -> {<<0, 0>>, <<0, 1>>, <<1, 0>>}]} : k \in 0..5}
Shells == {v \in UNION {[1..k -> Pts] : k \in 3..K} : SimpleV(v)}
T(x, y, dx, dy) == <<<<x, y, 10 * x + y>>, <<x + dx, y, 10 * (x + dx) + y>>, <<x, y + dy, 10 * x + y + dy>>>>
Holes == {T(1, 1, 1, 1), T(1, 1, 1, 2), T(4, 1, -1, 1), T(1, 3, 2, 1) \o <<<<0, 3, 3>>>>, T(1, 3, 2, 1), <<>>}
HoleLists == {h \in Seqs(Holes, H) : \A i, j \in DOMAIN h : i # j => h[i] # h[j]}
Init == \/ kind = "L" /\ body \in Lines
        \/ kind = "S" /\ body \in {<<p, q>> : p \in Pts, q \in Pts}
        \/ kind = "A" /\ body \in {<<v>> : v \in Shells} \cup {<<>>}
        \/ kind = "A" /\ body \in {<<T(0, 0, 9, 9)>> \o h : h \in HoleLists}
Turn(i) == body' = [body EXCEPT ![i] = Rot(body[i], 1)]
Flip(i) == body' = [body EXCEPT ![i] = Rev(body[i])]
Swap(i) == body' = [body EXCEPT ![i] = body[i + 1], ![i + 1] = body[i]]
Back == kind # "A" /\ body' = Rev(body)
Forget == IF kind # "A" THEN Back
          ELSE \/ \E i \in DOMAIN body : body[i] # <<>> /\ (Turn(i) \/ Flip(i))
               \/ \E i \in 2..(Len(body) - 1) : Swap(i)
Normalise == body' = Norm(kind, body)
Next == (Forget \/ Normalise) /\ UNCHANGED kind
Spec == Init /\ [][Next]_vars

(* ------------------------------ properties ------------------------------ *)
Plane(b) == [i \in DOMAIN b |-> <<b[i][1], b[i][2]>>]
Canonical == [][IF kind = "A" THEN Norm(kind, body') = Norm(kind, body) ELSE Plane(Norm(kind, body')) = Plane(Norm(kind, body))]_vars
Idempotent == LET n == Norm(kind, body) IN Norm(kind, n) = n
SamePoints == LET n == Norm(kind, body)  R(t) == {t[i] : i \in DOMAIN t} IN
  IF kind = "A" THEN Len(n) = Len(body) /\ {R(n[i]) : i \in DOMAIN n} = {R(body[i]) : i \in DOMAIN body}
                ELSE n \in {body, Rev(body)}
Shape == LET n == Norm(kind, body) IN
  IF kind = "A" THEN \A i \in DOMAIN n : (n[i] # <<>> => Sgn(Area2(Cl(n[i]))) = (IF i = 1 THEN -1 ELSE 1))
                                         /\ \A j \in DOMAIN n[i] : ~Less(n[i][j], n[i][1])
  ELSE CmpSeq(n, Rev(n)) <= 0

(* ------------------------------ conformance ----------------------------- *)
Query(op, a) == CASE op = "norm" -> Norm(a[1], a[2])
                  [] op = "ring" -> NormRing(a[1], a[2] = 1)
EmitCases == Emit(<<Step("norm", <<kind, body>>, Norm(kind, body))>> \o
                  (IF kind = "A" /\ Len(body) > 0 THEN <<Step("ring", <<body[Len(body)], 1>>, NormRing(body[Len(body)], TRUE)),
                                                         Step("ring", <<body[Len(body)], 0>>, NormRing(body[Len(body)], FALSE))>> ELSE <<>>))
=============================================================================
