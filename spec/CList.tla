------------------------------- MODULE CList --------------------------------
(* Coordinate lists.  A coordinate is <<x, y, tag>>: the tag (its height)    *)
(* distinguishes coordinates that are equal in the plane.                    *)
EXTENDS Lat
CONSTANTS M                \* histories of M additions
VARIABLES hist, lst
vars == <<hist, lst>>

Same(a, b) == a[1] = b[1] /\ a[2] = b[2]
Cut(s, i, j) == IF i > j THEN <<>> ELSE SubSeq(s, i, j)
(* insert c before position i (0-based, 0..Len); without repeats, not next to an equal neighbour *)
Insert(s, i, c, rep) ==
  IF ~rep /\ ((i > 0 /\ Same(s[i], c)) \/ (i < Len(s) /\ Same(s[i + 1], c))) THEN s
  ELSE Cut(s, 1, i) \o <<c>> \o Cut(s, i + 1, Len(s))
Add(s, c, rep) == Insert(s, Len(s), c, rep)
RECURSIVE AddAll(_, _, _)
AddAll(s, cs, rep) == IF cs = <<>> THEN s ELSE AddAll(Add(s, Head(cs), rep), Tail(cs), rep)
(* the section from start up to but not including end (0-based), in either direction *)
Section(cs, a, b) == IF a <= b THEN [k \in 1..(b - a) |-> cs[a + k]] ELSE [k \in 1..(a - b) |-> cs[a + 2 - k]]

Apply(s, u) ==
  CASE u[1] = "new"  -> AddAll(<<>>, u[2], u[3] = 1)
    [] u[1] = "add"  -> Add(s, u[2], u[3] = 1)
    [] u[1] = "ins"  -> Insert(s, u[2], u[3], u[4] = 1)
    [] u[1] = "list" -> AddAll(s, u[2], u[3] = 1)
    [] u[1] = "rev"  -> AddAll(s, Rev(u[2]), u[3] = 1)
    [] u[1] = "sect" -> AddAll(s, Section(u[2], u[4], u[5]), u[3] = 1)
    [] u[1] = "close" -> IF s = <<>> THEN s ELSE Add(s, s[1], FALSE)

A == <<0, 0, 1>>
B == <<0, 0, 2>>
C == <<1, 0, 3>>
D == <<0, 1, 4>>
L1 == <<A, B, C, C, D, A>>
Ups(s) == {<<"add", c, r>> : c \in {A, B, C, D}, r \in {0, 1}}
       \cup {<<"ins", i, c, r>> : i \in {0, Len(s) \div 2, Len(s)}, c \in {A, C}, r \in {0, 1}}
       \cup {<<k, w, r>> : k \in {"list", "rev"}, w \in {<<>>, L1, <<C, A>>}, r \in {0, 1}}
       \cup {<<"sect", L1, r, i, j>> : i \in {1, 5}, j \in {0, 3, 5}, r \in {0, 1}}
       \cup {<<"new", w, r>> : w \in {L1, <<>>}, r \in {0, 1}} \cup {<<"close">>}

Init == hist = <<>> /\ lst = <<>>
Next == Len(hist) < M /\ \E u \in Ups(lst) : hist' = Append(hist, u) /\ lst' = Apply(lst, u)
Spec == Init /\ [][Next]_vars

(* ------------------------------ properties ------------------------------ *)
NoRun(s) == \A i \in 1..(Len(s) - 1) : ~Same(s[i], s[i + 1])
StrictNoRun == (\A i \in DOMAIN hist : hist[i][1] = "close" \/ (hist[i][1] = "add" /\ hist[i][3] = 0) \/ (hist[i][1] \in {"list", "rev", "sect"} /\ hist[i][3] = 0)
                                        \/ (hist[i][1] = "ins" /\ hist[i][4] = 0)) => NoRun(lst)
RECURSIVE Sub(_, _)
Sub(s, t) == IF s = <<>> THEN TRUE ELSE IF t = <<>> THEN FALSE ELSE IF s[1] = t[1] THEN Sub(Tail(s), Tail(t)) ELSE Sub(s, Tail(t))
(* nothing is lost or reordered *)
Kept == [][hist'[Len(hist')][1] # "new" => Sub(lst, lst')]_vars
Closed == (hist # <<>> /\ hist[Len(hist)][1] = "close" /\ lst # <<>>) => Same(lst[1], lst[Len(lst)])
AllowedGrows == [][LET u == hist'[Len(hist')] IN (u[1] = "add" /\ u[3] = 1) => lst' = Append(lst, u[2])]_vars

(* ------------------------------ conformance ----------------------------- *)
RECURSIVE Hist(_, _, _)
Hist(s, h, i) == IF i > Len(h) THEN <<>> ELSE LET n == Apply(s, h[i]) IN <<Step("up", h[i], n)>> \o Hist(n, h, i + 1)
EmitCases == Len(hist) = M => Emit(Hist(<<>>, hist, 1))
=============================================================================
