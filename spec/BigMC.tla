--------------------------------- MODULE BigMC ---------------------------------
(* The arithmetic of Big against that of the integers, on a grid of numbers   *)
(* with up to two digits on either side of the point.                         *)
EXTENDS Big, TLC
Digits == {0, 1, 2047, 2048, 4095}
Ints == {k * 4096 + d : k \in {-3, -1, 0, 2, 5}, d \in Digits}
VARIABLES x, y, z
(* k / 4096 *)
Frac(k) == Norm([i \in 1..ND |-> IF i = NF THEN k ELSE 0])
Init == x \in Ints /\ y \in Ints /\ z = 0
Next == z = 0 /\ z' = 1 /\ UNCHANGED <<x, y>>
Spec == Init /\ [][Next]_<<x, y, z>>
(* (a/4096)(b/4096) = ab/4096^2 *)
Prod(k) == Norm([i \in 1..ND |-> IF i = NF - 1 THEN k ELSE 0])
Right == LET a == Frac(x) b == Frac(y) IN
    /\ BAdd(a, b) = Frac(x + y) /\ BSub(a, b) = Frac(x - y) /\ BNeg(a) = Frac(-x)
    /\ BMul(a, b) = Prod(x * y)
    /\ BLeq(a, b) = (x <= y) /\ BSgn(a) = (IF x < 0 THEN -1 ELSE IF x = 0 THEN 0 ELSE 1)
    /\ BAbs(a) = Frac(IF x < 0 THEN -x ELSE x) /\ BMin(a, b) = Frac(IF x < y THEN x ELSE y)
    /\ BTwice(a) = Frac(2 * x) /\ BHalve(BTwice(a)) = a
    /\ BMul(BInt(3), b) = Frac(3 * y) /\ BInt(x) = Frac(x * 4096)
    /\ BClose(a, b, B0) = (x = y) /\ BMul(BMul(a, b), BTiny(1)) = Norm([i \in 1..ND |-> IF i = NF - 2 THEN x * y ELSE 0])
=============================================================================
