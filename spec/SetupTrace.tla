------------------------------ MODULE SetupTrace ------------------------------
(* Decides recorded set-ups: "cfg" a configuration drawn by SetupMC and what  *)
(* became of it, "ic" the state set by a ready-made initial condition.        *)
EXTENDS SetupRules, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, fn
e == Trace[l]
Report(g) == \A p \in {x \in DOMAIN g : ~g[x]} : PrintT("REJECT " \o p \o " " \o ToString(l))

\* refused by the configuration, not by its own initial condition
Refused == e.res # "ok" /\ e.calls = 0
Good == Valid(e.k)
RuleG == [ C19 |-> /\ e.res # "panic"
                   /\ ~Good => e.res = "err"
                   /\ (Good /\ Decided(e.k)) => ~Refused
                   /\ Refused => e.same ]
InitG == [ C19 |-> ~Good => e.calls = 0,
           C25 |-> /\ e.calls <= 1
                   /\ e.res = "ok" => /\ e.calls = 1 /\ ~e.fails
                                      /\ e.samemesh /\ e.marker /\ e.kept /\ e.faces
                   /\ (e.calls = 1 /\ e.fails) => e.res = "err" /\ e.src = "init"
                   /\ (e.calls = 1 /\ ~e.fails) => e.res = "ok" ]

(* --- ready-made initial conditions: the west half is every cell up to the   *)
(* middle of the whole grid; values in units of 1e-5                          *)
Half == e.s \div 2
Cells == 1..e.s
West(i) == i <= Half
NohRow(j, i) == CASE j = 1 -> 100000
                  [] j = 2 -> IF West(i) THEN 100000 ELSE -100000
                  [] OTHER -> 1
SodRow(j, i) == CASE j = 1 -> IF West(i) THEN 100000 ELSE 12500
                  [] j = 2 -> 0
                  [] OTHER -> IF West(i) THEN 100000 ELSE 10000
Row(j, i) == IF e.which = "noh" THEN NohRow(j, i) ELSE SodRow(j, i)
Suits == e.ph = "adia" \/ (e.ph = "isot" /\ e.which = "noh")
Eqs == IF e.ph = "adia" THEN 3 ELSE 2
PresetG == [ C25 |-> IF ~Suits THEN e.res = "err"
                     ELSE /\ e.res = "ok" /\ e.exact /\ Len(e.prim) = Eqs
                          /\ \A j \in 1..Eqs : Len(e.prim[j]) = e.s /\ \A i \in Cells : e.prim[j][i] = Row(j, i)
                          /\ e.ph = "isot" => \A i \in Cells : e.c[i] = 100000 ]
Kind == IF ~Good THEN "cfg-bad" ELSE IF ~Decided(e.k) THEN "cfg-open" ELSE IF AtZero(e.k, e.s) THEN "cfg-zero" ELSE IF e.fails THEN "cfg-fails" ELSE "cfg-good"
Check == CASE e.ev = "cfg" -> PrintT("CLASS " \o Kind) /\ Report(RuleG) /\ Report(InitG)
           [] e.ev = "ic" -> PrintT("CLASS ic-" \o e.which) /\ Report(PresetG)
Init == l \in 1..Len(Trace) /\ fn = FALSE
Next == ~fn /\ Check /\ fn' = TRUE /\ PrintT("CASE " \o ToString(l)) /\ UNCHANGED l
Spec == Init /\ [][Next]_<<l, fn>>
=============================================================================
