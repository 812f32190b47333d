-------------------------------- MODULE UnitsMC --------------------------------
(* A physical quantity 10^phys SI units, carried as a number 10^num in some   *)
(* system through any sequence of conversions; and the sequences to replay.   *)
EXTENDS Units, TLC, Json
CONSTANT MaxSteps
VARIABLES q, in, num, phys, steps
vars == <<q, in, num, phys, steps>>
Init == /\ q \in Quantities /\ in \in Systems /\ num \in -2..2 /\ steps = <<>>
        /\ phys = num + Unit(in, q)
Convert(to) == /\ Len(steps) < MaxSteps
               /\ steps' = Append(steps, [mode |-> in, q |-> q, to |-> to])
               /\ num' = num + Shift(in, to, q) /\ in' = to /\ UNCHANGED <<q, phys>>
Next == \E to \in Systems : Convert(to)
Spec == Init /\ [][Next]_vars
SameQuantity == num + Unit(in, q) = phys
ThereAndBack == \A f, t \in Systems : Shift(f, t, q) + Shift(t, f, q) = 0
Direct == \A f, m, t \in Systems : Shift(f, m, q) + Shift(m, t, q) = Shift(f, t, q)
Coinciding == \A f, t \in Systems : Unit(f, q) = Unit(t, q) => Shift(f, t, q) = 0
\* a number taken by whichever conversion, not only of the quantity it is
Whichever == /\ Len(steps) < MaxSteps
       /\ \E m, t \in Systems, p \in Quantities : steps' = Append(steps, [mode |-> m, q |-> p, to |-> t])
       /\ UNCHANGED <<q, in, num, phys>>
Stop == Len(steps) >= MaxSteps /\ Len(steps) < MaxSteps + 1 /\ steps' = Append(steps, [mode |-> "", q |-> "", to |-> ""])
        /\ PrintT("GEN " \o ToJson(steps)) /\ UNCHANGED <<q, in, num, phys>>
GInit == Init /\ num = 0
GSpec == GInit /\ [][Next \/ Stop]_vars
HSpec == GInit /\ q = "time" /\ in = "SI" /\ [][Whichever \/ Stop]_vars
=============================================================================
