-------------------------------- MODULE Env ---------------------------------
(* Closed axis-parallel rectangles <<x1, x2, y1, y2>> and the null rectangle *)
(* <<>>, with a history of mutations.                                        *)
EXTENDS Lat
CONSTANTS N, M             \* pairs over 0..N; histories of M mutations
VARIABLES mode, hist, env, other
vars == <<mode, hist, env, other>>

Null == <<>>
IsNull(e) == e = Null
Rect(x1, x2, y1, y2) == <<Min2(x1, x2), Max2(x1, x2), Min2(y1, y2), Max2(y1, y2)>>
Cut(a, b, c, d) == IF a > b \/ c > d THEN Null ELSE <<a, b, c, d>>
Union(e, f) == IF IsNull(e) THEN f ELSE IF IsNull(f) THEN e
               ELSE <<Min2(e[1], f[1]), Max2(e[2], f[2]), Min2(e[3], f[3]), Max2(e[4], f[4])>>
Inter(e, f) == IF IsNull(e) \/ IsNull(f) THEN Null
               ELSE Cut(Max2(e[1], f[1]), Min2(e[2], f[2]), Max2(e[3], f[3]), Min2(e[4], f[4]))
Has(e, p) == ~IsNull(e) /\ e[1] <= p[1] /\ p[1] <= e[2] /\ e[3] <= p[2] /\ p[2] <= e[4]
Meets(e, f) == ~IsNull(Inter(e, f))
Covers(e, f) == ~IsNull(e) /\ ~IsNull(f) /\ Union(e, f) = e
GapX(e, f) == Max2(0, Max2(f[1] - e[2], e[1] - f[2]))
GapY(e, f) == Max2(0, Max2(f[3] - e[4], e[3] - f[4]))
CompareT(a, b) == IF a[1] # b[1] THEN Sgn(a[1] - b[1]) ELSE IF a[3] # b[3] THEN Sgn(a[3] - b[3])
                  ELSE IF a[2] # b[2] THEN Sgn(a[2] - b[2]) ELSE Sgn(a[4] - b[4])
Compare(a, b) == IF IsNull(a) THEN (IF IsNull(b) THEN 0 ELSE -1) ELSE IF IsNull(b) THEN 1 ELSE CompareT(a, b)

(* ------------------------------- mutations ------------------------------ *)
Apply(e, m) ==
  CASE m[1] = "init" -> m[2]
    [] m[1] = "null" -> Null
    [] m[1] = "pt" -> Union(e, <<m[2][1], m[2][1], m[2][2], m[2][2]>>)
    [] m[1] = "env" -> Union(e, m[2])
    [] m[1] = "by" -> IF IsNull(e) THEN e ELSE Cut(e[1] - m[2], e[2] + m[2], e[3] - m[2], e[4] + m[2])
    [] m[1] = "byxy" -> IF IsNull(e) THEN e ELSE Cut(e[1] - m[2], e[2] + m[2], e[3] - m[3], e[4] + m[3])
    [] m[1] = "move" -> IF IsNull(e) THEN e ELSE <<e[1] + m[2], e[2] + m[2], e[3] + m[3], e[4] + m[3]>>
    [] m[1] = "cut" -> Inter(e, m[2])

Ivals == {<<a, b>> : a \in 0..N, b \in 0..N}
Rects == {Null} \cup {<<i[1], i[2], j[1], j[2]>> : i \in {k \in Ivals : k[1] <= k[2]}, j \in {k \in Ivals : k[1] <= k[2]}}
Muts == { <<"init", Null>>, <<"init", <<0, 2, -1, 1>> >>, <<"null">>, <<"pt", <<1, 0>> >>, <<"pt", <<-2, 3>> >>, <<"pt", <<4, -3>> >>,
          <<"env", Null>>, <<"env", <<0, 0, 1, 5>> >>, <<"env", <<-3, 1, -1, 0>> >>, <<"by", 1>>, <<"by", -1>>, <<"by", -2>>,
          <<"byxy", -1, 0>>, <<"byxy", 2, -1>>, <<"move", 3, -2>>, <<"move", 0, 1>>,
          <<"cut", Null>>, <<"cut", <<0, 3, 0, 3>> >>, <<"cut", <<3, 4, 3, 3>> >> }

Init == \/ mode = "hist" /\ hist = <<>> /\ env = Null /\ other = Null
        \/ mode = "pair" /\ hist = <<>> /\ env \in Rects /\ other \in Rects
Next == /\ mode = "hist" /\ Len(hist) < M
        /\ \E m \in Muts : hist' = Append(hist, m) /\ env' = Apply(env, m)
        /\ UNCHANGED <<mode, other>>
Spec == Init /\ [][Next]_vars

(* ----------------- properties: the algebra is that of point sets -------- *)
Pts == (-1..(N + 1)) \X (-1..(N + 1))
PS(e) == {p \in Pts : Has(e, p)}
SetsAgree == mode = "pair" =>
  /\ PS(Inter(env, other)) = PS(env) \cap PS(other)
  /\ Meets(env, other) <=> PS(env) \cap PS(other) # {}
  /\ Covers(env, other) <=> (PS(other) # {} /\ PS(other) \subseteq PS(env))
  /\ PS(env) \cup PS(other) \subseteq PS(Union(env, other))
  /\ \A e \in {<<a, b, c, d>> : a \in {0, N}, b \in {0, N}, c \in {0, N}, d \in {0, N}} :
        PS(env) \cup PS(other) \subseteq PS(e) => PS(Union(env, other)) \subseteq PS(e)
  /\ (Compare(env, other) = 0) <=> (env = other)
  /\ Compare(env, other) = -Compare(other, env)
WellFormed == IsNull(env) \/ (env[1] <= env[2] /\ env[3] <= env[4])

(* ------------------------------ conformance ----------------------------- *)
Obs(e) == IF IsNull(e) THEN <<"null">> ELSE <<e[1], e[2], e[3], e[4], e[1] + e[2], e[3] + e[4]>>
QPts == << <<0, 0>>, <<1, 1>>, <<2, 0>>, <<0, 2>>, <<-1, 1>>, <<1, 3>>, <<2, 2>>, <<3, 1>>, <<1, -1>> >>
Pair(e, f) == << Bit(Meets(e, f)), Bit(Covers(e, f)), Bit(Covers(e, f) /\ e # f), Bit(e = f), Compare(e, f),
                 Obs(Inter(e, f)), Obs(Union(e, f)),
                 IF IsNull(e) \/ IsNull(f) THEN "*" ELSE <<"sqrt", GapX(e, f) * GapX(e, f) + GapY(e, f) * GapY(e, f), 1>> >>
Query(op, a) ==
  CASE op = "pair" -> Pair(a[1], a[2])
    [] op = "has" -> [i \in DOMAIN a[2] |-> Bit(Has(a[1], a[2][i]))]
    [] op = "i3" -> Bit(Has(Rect(a[1][1], a[2][1], a[1][2], a[2][2]), a[3]))
    [] op = "i4" -> Bit(Meets(Rect(a[1][1], a[2][1], a[1][2], a[2][2]), Rect(a[3][1], a[4][1], a[3][2], a[4][2])))
RECURSIVE Hist(_, _, _)
Hist(e, h, i) == IF i > Len(h) THEN <<>> ELSE LET f == Apply(e, h[i]) IN <<Step("mut", h[i], Obs(f))>> \o Hist(f, h, i + 1)
EmitCases ==
  IF mode = "hist" THEN Len(hist) = M => Emit(Hist(Null, hist, 1))
  ELSE /\ Emit(<<Step("pair", <<env, other>>, Query("pair", <<env, other>>))>>)
       /\ other = Null => Emit(<<Step("has", <<env, QPts>>, Query("has", <<env, QPts>>))>>)
       /\ env # Null /\ other # Null =>
            LET a == << <<env[1], env[4]>>, <<env[2], env[3]>>, <<other[2], other[3]>>, <<other[1], other[4]>> >> IN
            /\ Emit(<<Step("i4", a, Query("i4", a))>>)
            /\ Emit(<<Step("i3", SubSeq(a, 1, 3), Query("i3", a))>>)
=============================================================================
