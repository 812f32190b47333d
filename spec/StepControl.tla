----------------------------- MODULE StepControl -----------------------------
(* Adaptive error control of one time step.  Widths are integers; the error  *)
(* of a trial is chosen by the environment.  A trial whose error is at least *)
(* one is rejected and followed by a narrower one (by at most a factor of    *)
(* four); a trial below one is accepted, and the width that is finally used  *)
(* may grow up to four times the trial's, within the maximum width and the   *)
(* time left to the schedule.                                                *)
EXTENDS Integers, Sequences
CONSTANTS Errors, Rejecting           \* error classes, and those that reject

VARIABLES ph,      \* "trial", "done", "failed"
          p,       \* parameters of the step: min, max, left
          w,       \* width of the current trial
          ws,      \* widths of all trials so far
          es,      \* errors of all trials so far
          fin      \* the width finally used
sc == <<ph, p, w, ws, es, fin>>
MinI(a, b) == IF a < b THEN a ELSE b
MaxI(a, b) == IF a > b THEN a ELSE b

StartWith(cfl) == MinI(cfl, MinI(p.max, p.left))
Trial(e) ==
    /\ ph = "trial"
    /\ ws' = Append(ws, w) /\ es' = Append(es, e)
    /\ UNCHANGED p
    /\ IF e \in Rejecting
       THEN \E n \in (w + 3) \div 4 .. w - 1 :
               /\ w' = n /\ UNCHANGED fin
               /\ ph' = IF n < p.min THEN "failed" ELSE "trial"
       ELSE \E f \in 1..MinI(4 * w, MinI(p.max, p.left)) :
               /\ fin' = f /\ ph' = "done" /\ UNCHANGED w
\* a trial of the narrowest representable width that is rejected cannot be narrowed
Exhausted(e) ==
    /\ ph = "trial" /\ w = 1 /\ e \in Rejecting
    /\ ws' = Append(ws, w) /\ es' = Append(es, e)
    /\ ph' = "failed" /\ w' = 0 /\ UNCHANGED <<p, fin>>
Next == \E e \in Errors : Trial(e) \/ Exhausted(e)

\* (C07)
Narrowing == \A i \in 1..Len(ws) - 1 : ws[i+1] < ws[i] /\ 4 * ws[i+1] >= ws[i] /\ es[i] \in Rejecting
Accepted == ph = "done" =>
    /\ es[Len(es)] \notin Rejecting
    /\ fin > 0 /\ fin <= 4 * ws[Len(ws)] /\ fin <= p.max /\ fin <= p.left
Refused == ph = "failed" => /\ \A i \in 1..Len(es) : es[i] \in Rejecting
                            /\ fin = 0
                            /\ w < p.min
Terminates == <>(ph \in {"done", "failed"})
=============================================================================
