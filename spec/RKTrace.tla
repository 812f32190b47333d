------------------------------- MODULE RKTrace -------------------------------
(* Checks recorded steps of the real time integration: stage states and new  *)
(* solution against the tableau (C06), trials and widths against StepControl *)
(* with the error recomputed from the recorded rates (C07).                  *)
EXTENDS RungeKutta, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, fn
vars == <<l, fn>>
e == Trace[l]
Report(g) == \A x \in Failed(g) : PrintT("REJECT " \o x \o " " \o ToString(l))
P20 == 1048576

(* --- recovered coefficients: to eight decimals, and (multiplied out) to 36 bits *)
H == INSTANCE Big
Fine(x, r) == /\ Len(x) = H!ND
              /\ H!BClose(H!BMul(H!BInt(r[2]), x), H!BInt(r[1]), H!BInt(Abs(r[1]) + r[2]))
TabG ==
    LET m == e.mode  s == Stages(m) IN
    [ C06 |-> /\ \A x \in 1..Len(e.evals) : e.evals[x] = s * (IF e.emb THEN 2 ELSE 1)
              /\ Len(e.b) = s
              /\ \A q \in 1..s : /\ Close(e.b[q], Digits(B(m)[q]), 2)
                                 /\ \A r \in 1..s : Close(e.a[q][r], IF r < q THEN Digits(A(m)[q][r]) ELSE 0, 4)
              /\ \A q \in 1..s : /\ Fine(e.bh[q], B(m)[q])
                                 /\ \A r \in 1..s : Fine(e.ah[q][r], IF r < q THEN A(m)[q][r] ELSE Z) ]

(* --- one step ---                                                          *)
m == e.mode
s == Stages(m)
Passes == e.evals \div s
NC == Len(e.u0[1])
In == 3..NC-2
Rows == 1..e.rows
Tol(x) == 2 * s + 4 + 4 * e.noise[x]
StagesOk(x) == \A q \in 1..s, j \in Rows, i \in In :
    Close(e.v[x][q][j][i], StageV(m, e.d[x], j, i, q), Tol(x))
HighOk(x) == \A j \in Rows, i \in In : Close(e.v1[j][i - 2], HighV(m, e.d[x], j, i), Tol(x))

\* boundary conditions of the scripted problem are linear, so they hold for displacements as they do for states;
\* the state at the beginning of a step satisfies them as well
Lin(mode, g, a, b) == CASE mode = "NoGradients" -> a [] mode = "Extrapolate" -> (g + 1) * a - g * b
                        [] mode = "Reflecting" -> IF g = 1 THEN -a ELSE -b
GhostOk(x) == \A q \in 1..s, j \in Rows, g \in 1..2 :
    LET V == e.v[x][q][j] IN
    /\ Close(V[3 - g], Lin(e.bw[j], g, V[3], V[4]), Tol(x))
    /\ Close(V[NC - 2 + g], Lin(e.be[j], g, V[NC - 2], V[NC - 3]), Tol(x))

Shift(x, k) == IF k >= 0 THEN (IF k > 30 \/ x >= Pow2(30 - k) THEN 1073741824 ELSE x * Pow2(k)) ELSE x \div Pow2(Min(-k, 30))
\* the two sides of "error below one" in one cell, in the scale of pass x
Weight(x, j, i) == Abs(e.u0[j][i] + (IF e.k[x] > 30 THEN 0 ELSE HighV(m, e.d[x], j, i) \div Pow2(e.k[x]))) + e.atol
Thr(x, j, i) == Shift(Weight(x, j, i), e.k[x] - e.a)
Dif(x, j, i) == Abs(DiffV(m, e.d[x], j, i))
\* 3 %, and the rounding of the three terms of the weight
Slack(x, t) == t \div 32 + Tol(x) + Shift(2, e.k[x] - e.a)
Below(x) == \A j \in Rows, i \in In : LET t == Thr(x, j, i) IN Dif(x, j, i) - Slack(x, t) <= t
Above(x) == \E j \in Rows, i \in In : LET t == Thr(x, j, i) IN Dif(x, j, i) >= t - Slack(x, t)
Last == IF e.ok THEN Passes - 1 ELSE Passes        \* the last trial
Narrower(r) == r >= P20 \div 4 - 1 /\ r < P20

StepG ==
    [ C06 |-> /\ (e.ok \/ e.dtmin) => e.evals % s = 0
              /\ (e.ok => IF e.emb THEN Passes >= 2 ELSE Passes = 1)
              /\ \A x \in 1..Passes : StagesOk(x) /\ (e.src = "scr" => GhostOk(x))
              /\ e.ok => HighOk(Passes),
      C07 |-> e.emb =>
          /\ \A x \in 1..Passes : e.same[x]
          /\ (e.ok \/ e.dtmin) => \A x \in 1..Last :
                IF e.ok /\ x = Last THEN Below(x) ELSE Above(x)
          /\ (e.ok \/ e.dtmin) => (\A x \in 1..Last - 1 : Narrower(e.ratio[x])) /\ e.wmin
          /\ \A x \in 1..Passes - 1 : e.ratio[x] <= 4 * P20 + 4
          /\ e.ok => /\ e.finp <= 4 * P20 + 4 /\ e.pos /\ e.lemax /\ e.lesched /\ e.adv
                     /\ HighOk(Passes)
          /\ e.dtmin => ~e.ok /\ e.below /\ Narrower(e.fin) /\ e.kept,
      C02 |-> e.ok => e.pos /\ e.adv /\ e.lesched ]
TwinG == [ C07 |-> e.same ]
RunG == [ C07 |-> ~e.panic, C06 |-> ~e.panic ]

Check == CASE e.ev = "tab" -> Report(TabG) [] e.ev = "rk" -> Report(StepG) [] e.ev = "twin" -> Report(TwinG) [] e.ev = "run" -> Report(RunG)
Init == l \in 1..Len(Trace) /\ fn = FALSE
Next == ~fn /\ Check /\ fn' = TRUE /\ PrintT("CASE " \o ToString(l)) /\ UNCHANGED l
Spec == Init /\ [][Next]_vars
=============================================================================
