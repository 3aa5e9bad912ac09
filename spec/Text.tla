-------------------------------- MODULE Text --------------------------------
(* What the printed forms say.  An object is <<kind, data>>; its text is a    *)
(* sequence of words <<"w", word>> and numbers <<"n", v>>, and a reader that  *)
(* knows only the text must get back everything the object shows.             *)
EXTENDS Lat
CONSTANTS N, L, M         \* ordinates -N..N; sequences of L points; histories of M changes
VARIABLES first, hist, obj
vars == <<first, hist, obj>>

Nil == -99                \* a height that is not there
W(x) == <<<<"w", x>>>>
Num(v) == <<<<"n", v>>>>

(* ----------------------------- the printed form -------------------------- *)
PointText(c) == W("(") \o Num(c[1]) \o W(",") \o Num(c[2]) \o W(",") \o Num(c[3]) \o W(")")
RECURSIVE Listed(_, _)
Listed(s, i) == IF i > Len(s) THEN <<>> ELSE (IF i = 1 THEN <<>> ELSE W(",")) \o PointText(s[i]) \o Listed(s, i + 1)
Text(o) ==
  CASE o[1] = "point" -> PointText(o[2])
    [] o[1] = "seq"   -> W("(") \o Listed(o[2], 1) \o W(")")
    [] o[1] = "env"   -> W("Env") \o W("[") \o Num(o[2][1]) \o W(":") \o Num(o[2][2]) \o W(",")
                         \o Num(o[2][3]) \o W(":") \o Num(o[2][4]) \o W("]")
    [] o[1] = "model" -> (CASE o[2][1] = "floating" -> W("Floating")
                            [] o[2][1] = "single" -> W("Floating-Single")
                            [] o[2][1] = "fixed" -> W("Fixed") \o W("(") \o W("Scale") \o W("=") \o Num(o[2][2]) \o W(")"))
    [] o[1] = "plane" -> W("[") \o Num(o[2][1]) \o W(",") \o Num(o[2][2]) \o W("]")
    [] o[1] = "space" -> W("[") \o Num(o[2][1]) \o W(",") \o Num(o[2][2]) \o W(",") \o Num(o[2][3]) \o W("]")
    [] o[1] = "long"  -> W("DD") \o W("<") \o Num(o[2][1]) \o W(",") \o Num(o[2][2]) \o W(">")

(* ----------------------------- the reader -------------------------------- *)
Is(t, i, x) == i <= Len(t) /\ t[i][1] = "w" /\ t[i][2] = x
PointAt(t, i) == <<t[i + 1][2], t[i + 3][2], t[i + 5][2]>>          \* seven tokens a point
Read(t) ==
  IF Is(t, 1, "(") THEN
     IF Len(t) = 2 \/ Is(t, 2, "(") THEN <<"seq", [k \in 1..((Len(t) - 1) \div 8) |-> PointAt(t, 8 * k - 6)]>>
     ELSE <<"point", PointAt(t, 1)>>
  ELSE IF Is(t, 1, "Env") THEN <<"env", <<t[3][2], t[5][2], t[7][2], t[9][2]>>>>
  ELSE IF Is(t, 1, "Floating") THEN <<"model", <<"floating", 0>>>>
  ELSE IF Is(t, 1, "Floating-Single") THEN <<"model", <<"single", 0>>>>
  ELSE IF Is(t, 1, "Fixed") THEN <<"model", <<"fixed", t[5][2]>>>>
  ELSE IF Is(t, 1, "DD") THEN <<"long", <<t[3][2], t[5][2]>>>>
  ELSE IF Is(t, 5, "]") THEN <<"plane", <<t[2][2], t[4][2]>>>>
  ELSE <<"space", <<t[2][2], t[4][2], t[6][2]>>>>
(* the measure of a point is held but not shown *)
Shown(o) == CASE o[1] = "point" -> <<"point", SubSeq(o[2], 1, 3)>>
              [] o[1] = "seq" -> <<"seq", [i \in DOMAIN o[2] |-> SubSeq(o[2][i], 1, 3)]>>
              [] o[1] = "model" -> <<"model", <<o[2][1], IF o[2][1] = "fixed" THEN o[2][2] ELSE 0>>>>
              [] OTHER -> o

(* ----------------------------- changes ----------------------------------- *)
Ords == (-N)..N
Change(o, m) ==
  CASE o[1] = "point" -> <<"point", [o[2] EXCEPT ![m[2] + 1] = m[3]]>>
    [] o[1] = "seq"   -> IF m[1] \in DOMAIN o[2] THEN <<"seq", [o[2] EXCEPT ![m[1]][m[2] + 1] = m[3]]>> ELSE o
    [] o[1] = "env"   -> <<"env", <<Min2(o[2][1], m[2]), Max2(o[2][2], m[2]), Min2(o[2][3], m[3]), Max2(o[2][4], m[3])>>>>
    [] OTHER -> o
Points(z, m) == {<<x, y, zz, mm>> : x \in Ords, y \in {-1, N}, zz \in z, mm \in m}
Flat == Points({Nil}, {Nil})
High == Points({-1, 0, N}, {Nil})
Full == Points({0, N}, {2})
Objects ==
  {<<"point", p>> : p \in Flat \cup High \cup Full \cup Points({Nil}, {2})}
  \cup {<<"seq", <<>>>>}
  \cup UNION {{<<"seq", [i \in 1..n |-> s[i]]>> : s \in [1..n -> {<<1, -1, Nil, Nil>>, <<0, N, Nil, Nil>>}]} : n \in 1..L}
  \cup UNION {{<<"seq", [i \in 1..n |-> s[i]]>> : s \in [1..n -> {<<1, -1, N, Nil>>, <<0, N, -1, Nil>>}]} : n \in 1..L}
  \cup UNION {{<<"seq", [i \in 1..n |-> s[i]]>> : s \in [1..n -> {<<1, -1, N, 0>>, <<0, N, -1, 1>>}]} : n \in 1..L}
  \cup {<<"env", <<x, x + w, y, y + h>>>> : x \in {-1, 0}, y \in {-N, 1}, w \in {0, 1, N}, h \in {0, 2}}
  \cup {<<"model", <<k, s>>>> : k \in {"floating", "single", "fixed"}, s \in 1..N}
  \cup {<<"plane", <<x, y>>>> : x \in Ords, y \in Ords}
  \cup {<<"space", <<x, y, z>>>> : x \in Ords, y \in {-N, 0}, z \in {1, N}}
  \cup {<<"long", <<x, y>>>> : x \in Ords, y \in {-N, 0, 1}}
(* <<which point, which ordinate, new value>>; an envelope grows to <<value, value>> *)
HasHeight(o) == CASE o[1] = "point" -> o[2][3] # Nil
                  [] o[1] = "seq" -> \A i \in DOMAIN o[2] : o[2][i][3] # Nil
                  [] OTHER -> FALSE
Changes(o) == CASE o[1] = "env" -> {<<1, v, w>> : v \in Ords, w \in {-N, 0, N}}
                [] o[1] \in {"point", "seq"} ->
                     {<<i, k, v>> : i \in 1..(IF o[1] = "seq" THEN Len(o[2]) ELSE 1), k \in IF HasHeight(o) THEN 0..2 ELSE 0..1, v \in {-N, 2}}
                [] OTHER -> {}
Init == obj \in Objects /\ first = obj /\ hist = <<>>
Next == /\ Len(hist) < M
        /\ \E m \in Changes(obj) : hist' = Append(hist, m) /\ obj' = Change(obj, m)
        /\ UNCHANGED first
Spec == Init /\ [][Next]_vars

(* ----------------------------- properties -------------------------------- *)
Readable == Read(Text(obj)) = Shown(obj)
(* a change of one ordinate changes one number of the text and nothing else *)
OneNumber == [][LET t == Text(obj)
                    u == Text(obj') IN
                  /\ Len(t) = Len(u)
                  /\ \A i \in DOMAIN t : t[i][1] = u[i][1] /\ (t[i][1] = "w" => t[i] = u[i])
                  /\ obj[1] # "env" => Cardinality({i \in DOMAIN t : t[i] # u[i]}) <= 1]_vars

(* ----------------------------- conformance ------------------------------- *)
Obs(o) == [i \in DOMAIN Text(o) |-> Text(o)[i][2]]
RECURSIVE Hist(_, _, _)
Hist(o, h, i) == IF i > Len(h) THEN <<>> ELSE LET d == Change(o, h[i]) IN <<Step("set", h[i], Obs(d))>> \o Hist(d, h, i + 1)
EmitCases == (Len(hist) = M \/ Changes(obj) = {}) => Emit(<<Step("make", first, Obs(first))>> \o Hist(first, hist, 1))
=============================================================================
