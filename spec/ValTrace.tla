------------------------------- MODULE ValTrace -------------------------------
(* Decides recorded steps: "val" with scripted rates, so that the new state   *)
(* of every interior cell is known; "vst" with real fluxes near vacuum.       *)
EXTENDS Validation, TLC, Json, IOUtils, FiniteSets
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, fn
e == Trace[l]
Report(g) == \A p \in {x \in DOMAIN g : ~g[x]} : PrintT("REJECT " \o p \o " " \o ToString(l))

NC == Len(e.u1)
Exact == e.mode \in {"RK1", "RK2", "Heun2", "RKF12"}
\* "yes", "no", or "open" where rounding decides a value that would be exactly zero
Cell(c) == IF c[1] < 0 THEN "no" ELSE IF c[1] = 0 THEN (IF Exact THEN "no" ELSE "open")
           ELSE IF ~e.adia \/ Kin(c) > 0 THEN "yes" ELSE IF Kin(c) < 0 THEN "no" ELSE IF Exact THEN "no" ELSE "open"
InteriorAll == \A i \in 1..NC : Cell(e.u1[i]) = "yes"
Ghost(bc, a, b) == LET r == {GhostRho(bc[1], g, a, b) : g \in 1..2}
                       p == IF e.adia THEN {GhostP(bc[3], g, a, b) : g \in 1..2} ELSE {1}
                   IN IF \E x \in r \cup p : x < 0 THEN "no" ELSE IF \E x \in r \cup p : x = 0 THEN "open" ELSE "yes"
Verdict ==
    IF e.nonfinite THEN "no"
    ELSE IF \E i \in 1..NC : Cell(e.u1[i]) = "no" THEN "no"
    ELSE IF ~InteriorAll THEN "open"
    ELSE LET x == {Ghost(e.bw, e.u1[1], e.u1[2]), Ghost(e.be, e.u1[NC], e.u1[NC - 1])}
         IN IF "no" \in x THEN "no" ELSE IF "open" \in x THEN "open" ELSE "yes"
\* the state at the beginning has admissible ghost cells as well (otherwise intermediate states are not admissible)
Begin == Ghost(e.bw, e.u0[1], e.u0[2]) = "yes" /\ Ghost(e.be, e.u0[NC], e.u0[NC - 1]) = "yes"
ValG == [ C15 |-> /\ e.res # "panic"
                  /\ Verdict = "no" => e.res = "err"
                  /\ Verdict = "yes" /\ Begin => e.res = "ok"
                  /\ e.res = "ok" => \A x \in 1..Len(e.seen) : e.seen[x] = 1 ]
\* classes: 1 positive and finite, 0 zero, -1 negative, 2 not finite
VstG == [ C15 |-> /\ e.res # "panic"
                  /\ e.res = "ok" => \A x \in 1..Len(e.seen) : e.seen[x] = 1
                  /\ (e.res = "err" /\ e.validation) =>
                        (\E x \in 1..Len(e.seen) : e.seen[x] # 1) \/ (\E x \in 1..Len(e.mid) : e.mid[x] # 1) ]
Check == CASE e.ev = "val" -> Report(ValG) /\ PrintT("CLASS val-" \o Verdict \o "-" \o e.res)
           [] e.ev = "vst" -> Report(VstG) /\ PrintT("CLASS vst-" \o e.res \o (IF e.validation THEN "-validation" ELSE ""))
Init == l \in 1..Len(Trace) /\ fn = FALSE
Next == ~fn /\ Check /\ fn' = TRUE /\ PrintT("CASE " \o ToString(l)) /\ UNCHANGED l
Spec == Init /\ [][Next]_<<l, fn>>
=============================================================================
