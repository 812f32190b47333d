------------------------------ MODULE UnitsTrace -------------------------------
(* Decides recorded chains of conversions.  d.m3, m2, z, p2, p3: floats       *)
(* between the result and the argument times 10^-3 .. 10^3, rounded once.     *)
EXTENDS Units, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, fn
e == Trace[l]
Report(g) == \A p \in {x \in DOMAIN g : ~g[x]} : PrintT("REJECT " \o p \o " " \o ToString(l))
Of(st) == Shift(st.mode, st.to, st.q)
Off(st) == CASE Of(st) = -3 -> st.d.m3 [] Of(st) = -2 -> st.d.m2 [] Of(st) = 0 -> st.d.z [] Of(st) = 2 -> st.d.p2 [] Of(st) = 3 -> st.d.p3
StepOk(st) == /\ Off(st) <= (IF Of(st) = 0 THEN 0 ELSE 2)
              /\ st.again = 0 /\ st.neg = 0
RECURSIVE Total(_)
Total(n) == IF n = 0 THEN 0 ELSE Of(e.steps[n]) + Total(n - 1)
N == Len(e.steps)
Scaling == {n \in 1..N : Of(e.steps[n]) # 0}
\* neither overflow nor underflow on the way
Clear == \A n \in 1..N : e.steps[n].x # "far" /\ e.steps[n].y # "far" /\ (e.steps[n].y = "inf" => e.steps[n].x = "inf") /\ (e.steps[n].y = "zero" => e.steps[n].x = "zero")
UnitG == [ C23 |-> /\ \A n \in 1..N : StepOk(e.steps[n])
                   /\ (Clear /\ Total(N) = 0) => e.back <= (IF Scaling = {} THEN 0 ELSE 2 * N) ]
Kind == IF ~Clear THEN "range" ELSE IF Scaling = {} THEN "identity" ELSE IF Total(N) = 0 THEN "back" ELSE "scaled"
Check == PrintT("CLASS " \o Kind \o "-" \o e.c0) /\ Report(UnitG)
Init == l \in 1..Len(Trace) /\ fn = FALSE
Next == ~fn /\ Check /\ fn' = TRUE /\ PrintT("CASE " \o ToString(l)) /\ UNCHANGED l
Spec == Init /\ [][Next]_<<l, fn>>
=============================================================================
