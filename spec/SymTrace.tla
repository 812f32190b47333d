------------------------------ MODULE SymTrace ------------------------------
(* Decides recorded pairs of simulations: the same problem in other units   *)
(* (C26) and at another place (C27).                                        *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Dm == INSTANCE Dimensions WITH Floor <- FALSE, f <- 0, res <- 0
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
e == Trace[l]
Report(g) == \A p \in {x \in DOMAIN g : ~g[x]} : PrintT("REJECT " \o p \o " " \o ToString(l))

ANYK == 8888       \* only zeros
SameRun == e.res[1] = e.res[2] /\ e.n[1] = e.n[2] /\ e.res[1] # "panic"
Names == {"rho", "v", "d", "m", "c", "lam", "t", "dt"} \cup (IF e.ph = "adia" THEN {"p", "E"} ELSE {})
Scaled(n, k) == k \in {ANYK, Dm!Shift(n, [d |-> e.d, v |-> e.v, a |-> e.a])}
ScaleOk == /\ SameRun
           /\ Scaled("x", e.xi) /\ Scaled("w", e.w)
           /\ \A i \in 1..Len(e.steps) : \A n \in Names : Scaled(n, e.steps[i][n])

(* cell i of the second run shows what the cell as far from the profile shows in the first; beyond the ends *)
(* everything is as at the ends *)
Clamp(i, n) == IF i < 1 THEN 1 ELSE IF i > n THEN n ELSE i
From(i) == Clamp(i - e.at[2] + e.at[1], e.s[1])
StepMoved(s) == /\ s.ta = s.tb
                /\ Len(s.a) = e.s[1] /\ Len(s.b) = e.s[2]
                /\ \A i \in 1..e.s[2] : s.b[i] = s.a[From(i)]
                \* and nothing of the first run is lost
                /\ \A i \in 1..e.s[1] : s.a[i] = s.b[Clamp(i - e.at[1] + e.at[2], e.s[2])]
ShiftOk == /\ SameRun
           /\ e.margin + 2 <= e.at[1] /\ e.at[1] + e.width + e.margin + 2 <= e.s[1]
           /\ e.margin + 2 <= e.at[2] /\ e.at[2] + e.width + e.margin + 2 <= e.s[2]
           /\ \A i \in 1..Len(e.steps) : StepMoved(e.steps[i])
Init == l = 1
Next == /\ l <= Len(Trace)
        /\ IF e.ev = "scale" THEN Report([C26 |-> ScaleOk]) ELSE Report([C27 |-> ShiftOk])
        /\ PrintT("CLASS " \o e.ev \o "-" \o e.fl \o "-" \o (IF e.asc THEN "asc-" ELSE "") \o (IF e.n[1] > 2 THEN "steps" ELSE "short"))
        /\ PrintT("CLASS " \o e.ev \o "-" \o e.res[1])
        /\ PrintT("CASE " \o ToString(l))
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
=============================================================================
