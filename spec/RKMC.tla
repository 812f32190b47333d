-------------------------------- MODULE RKMC --------------------------------
(* Order conditions of every tableau: one state per scheme, weight vector,   *)
(* rooted tree and prime (exact by the Chinese remainder theorem), or in     *)
(* fixed point for the scheme published to five decimals.                    *)
EXTENDS RungeKutta, TLC
VARIABLES m, low, k, t, p
vars == <<m, low, k, t, p>>
Ord == IF low THEN LowOrder(m) ELSE Order(m)
W == IF low THEN BLow(m) ELSE B(m)
Init == /\ m \in Modes /\ low \in BOOLEAN /\ (low => m \in Embedded)
        /\ k = 1 /\ t = 1 /\ p = 1
Next == /\ UNCHANGED <<m, low>>
        /\ IF p < Len(Primes) /\ ~Rounded(m) THEN p' = p + 1 /\ UNCHANGED <<k, t>>
           ELSE /\ p' = 1
                /\ IF t < Len(Trees(k)) THEN t' = t + 1 /\ UNCHANGED k
                   ELSE t' = 1 /\ k' = k + 1 /\ k < Ord
Spec == Init /\ [][Next]_vars
Conditions == IF Rounded(m) THEN CondClose(m, W, Trees(k)[t]) ELSE CondExact(m, W, Trees(k)[t], Primes[p])
Difference == (~low /\ m \in Embedded /\ ~Rounded(m)) => DiffExact(m, Primes[p])
\* the orders claimed are the largest ones
Sharp == (k = 1 /\ t = 1 /\ p = 1 /\ Ord < 5) =>
            \E x \in 1..Len(Trees(Ord + 1)) : IF Rounded(m) THEN ~CondClose(m, W, Trees(Ord + 1)[x])
                                              ELSE ~CondExact(m, W, Trees(Ord + 1)[x], Primes[1])
TreeSizes == \A x \in 1..5 : \A y \in 1..Len(Trees(x)) : Size(Trees(x)[y]) = x
=============================================================================
