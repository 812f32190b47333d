--------------------------------- MODULE Big ---------------------------------
(***************************************************************************)
(* Fixed-point numbers with 48 fractional bits below 2^35 in magnitude: sequences    *)
(* of seven digits to the base 4096, lowest first; all digits but the      *)
(* highest are in 0..4095, the highest carries the sign.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences
BASE == 4096
ND == 7            \* digits
NF == 4            \* of which behind the point
RECURSIVE Carry(_, _, _, _)
(* x: digits of any size, i: next digit, c: carry, n: number of digits      *)
Carry(x, i, c, n) ==
    IF i = n THEN <<x[n] + c>>
    ELSE LET t == x[i] + c IN <<t % BASE>> \o Carry(x, i + 1, t \div BASE, n)
Norm(x) == Carry(x, 1, 0, ND)
B0 == [i \in 1..ND |-> 0]
BInt(k) == Norm([i \in 1..ND |-> IF i = NF + 1 THEN k ELSE 0])
BHalf == [i \in 1..ND |-> IF i = NF THEN BASE \div 2 ELSE 0]
(* 2^-(12 k)                                                                *)
BTiny(k) == [i \in 1..ND |-> IF i = NF + 1 - k THEN 1 ELSE 0]
BNeg(x) == Norm([i \in 1..ND |-> -x[i]])
BAdd(x, y) == Norm([i \in 1..ND |-> x[i] + y[i]])
BSub(x, y) == Norm([i \in 1..ND |-> x[i] - y[i]])
BTwice(x) == BAdd(x, x)
RECURSIVE Col(_, _, _, _)
(* products of digits i and k + 1 - i, from i on                            *)
Col(x, y, k, i) == IF i > ND \/ i > k THEN 0
                   ELSE IF k + 1 - i > ND THEN Col(x, y, k, i + 1)
                   ELSE x[i] * y[k + 1 - i] + Col(x, y, k, i + 1)
BMul(x, y) ==
    LET p == Carry([k \in 1..(2 * ND - 1) |-> Col(x, y, k, 1)], 1, 0, 2 * ND - 1)
    IN  \* the digits above are absorbed by the highest one kept (they are 0 or a sign)
        [i \in 1..ND |-> IF i < ND THEN p[i + NF] ELSE p[i + NF] + BASE * p[i + NF + 1] + (IF p[i + NF + 2] < 0 THEN -(BASE * BASE) ELSE 0)]
BNegative(x) == x[ND] < 0
BAbs(x) == IF BNegative(x) THEN BNeg(x) ELSE x
BLeq(x, y) == ~BNegative(BSub(y, x))
BMin(x, y) == IF BLeq(x, y) THEN x ELSE y
BMax(x, y) == IF BLeq(x, y) THEN y ELSE x
BHalve(x) == BMul(x, BHalf)
BSq(x) == BMul(x, x)
BZero(x) == \A i \in 1..ND : x[i] = 0
BSgn(x) == IF BNegative(x) THEN -1 ELSE IF BZero(x) THEN 0 ELSE 1
(* x = y up to 2^-36 of the size of the terms they were made of             *)
BClose(x, y, size) == BLeq(BAbs(BSub(x, y)), BAdd(BMul(BAdd(BInt(1), size), BTiny(3)), BTiny(4)))
=============================================================================
