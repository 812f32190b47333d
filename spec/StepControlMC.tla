---------------------------- MODULE StepControlMC ----------------------------
(* All behaviours of one step for small widths; and scripts of error classes *)
(* over several steps, generated for replay into the real step control.      *)
EXTENDS StepControl, TLC, Json, SequencesExt
VARIABLES script, opt
vars == <<sc, script, opt>>
Err == {"zero", "small", "mid", "edgeb", "edgea", "big", "huge"}
Rej == {"edgea", "big", "huge"}
W == 12
Err2 == {"small", "big"}
Init == /\ p \in [min : {1, 2, 4}, max : {5, 8, 100}, left : {1, 3, 9, 100}]
        /\ \E c \in {4, W} : w = StartWith(c)
        /\ ph = "trial" /\ ws = << >> /\ es = << >> /\ fin = 0
        /\ script = << >> /\ opt = << >>
Spec == Init /\ [][Next /\ UNCHANGED <<script, opt>>]_vars /\ WF_vars(Next /\ UNCHANGED <<script, opt>>)

\* --- generation: a sequence of steps, each a sequence of errors ending with an accepted one (or none)
GInit == /\ p = [min |-> 1, max |-> 64, left |-> 64] /\ w = 64 /\ ph = "trial" /\ ws = << >> /\ es = << >> /\ fin = 0
         /\ script = << >>
         /\ opt \in [min : {0, 0, 2, 8, 64, 300}, max : BOOLEAN, gap : {0, 0, 1, 3, 5, 11}]
GTrial == ph = "trial" /\ Len(es) < 9 /\ Next /\ UNCHANGED <<script, opt>>
GStep == /\ (ph # "trial" \/ Len(es) >= 9) /\ Len(script) < 4
         /\ script' = Append(script, es)
         /\ w' = 64 /\ ph' = "trial" /\ ws' = << >> /\ es' = << >> /\ fin' = 0 /\ UNCHANGED <<p, opt>>
GEnd == /\ Len(script) = 4 /\ ph = "trial" /\ es = << >>
        /\ PrintT("GEN " \o ToJson([errs |-> script, min |-> opt.min, max |-> opt.max, gap |-> opt.gap]))
        /\ ph' = "over" /\ UNCHANGED <<p, w, ws, es, fin, script, opt>>
GNext == GTrial \/ GStep \/ GEnd
GSpec == GInit /\ [][(Len(script) < 4 /\ (GTrial \/ GStep)) \/ GEnd]_vars
=============================================================================
