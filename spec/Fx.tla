--------------------------------- MODULE Fx ---------------------------------
(* Fixed-point arithmetic on TLC's 32-bit integers: the integer x stands    *)
(* for x / ONE.  Arguments of FMul and FDiv may be as large as 2^26, and    *)
(* the results must stay below 2^31.                                        *)
EXTENDS Integers, Sequences, FiniteSets
ONE == 32768
BAD == 2000000000           \* the projection of NaN, infinity and overflow

Abs(x) == IF x < 0 THEN -x ELSE x
Sgn(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
Fin(x) == Abs(x) < BAD

MulNat(a, b) ==
    LET ah == a \div ONE  al == a % ONE  bh == b \div ONE  bl == b % ONE
    IN  ah * bh * ONE + ah * bl + al * bh + (al * bl + 16384) \div ONE
FMul(a, b) == IF (a < 0) = (b < 0) THEN MulNat(Abs(a), Abs(b)) ELSE -MulNat(Abs(a), Abs(b))
FSq(a) == MulNat(Abs(a), Abs(a))

DivNat(a, b) ==             \* b < 2^26
    LET q0 == a \div b          r0 == a % b
        q1 == (r0 * 32) \div b  r1 == (r0 * 32) % b
        q2 == (r1 * 32) \div b  r2 == (r1 * 32) % b
        q3 == (r2 * 32 + b \div 2) \div b
    IN  q0 * ONE + q1 * 1024 + q2 * 32 + q3
FDiv(a, b) == IF (a < 0) = (b < 0) THEN DivNat(Abs(a), Abs(b)) ELSE -DivNat(Abs(a), Abs(b))

(* x * n / d for 0 <= d, n < 2^16 and |x| < 2^31 / max(n/d, 1)              *)
MulDivNat(x, n, d) == (x \div d) * n + ((x % d) * n + d \div 2) \div d
MulRat(x, n, d) == IF (x < 0) = (n < 0) THEN MulDivNat(Abs(x), Abs(n), d) ELSE -MulDivNat(Abs(x), Abs(n), d)

RECURSIVE Pow2(_)
Pow2(k) == IF k <= 0 THEN 1 ELSE 2 * Pow2(k - 1)
Close(a, b, tol) == Fin(a) /\ Fin(b) /\ Abs(a - b) <= tol
MaxAbs(f) == LET s == {Abs(f[i]) : i \in DOMAIN f} IN CHOOSE m \in s : \A x \in s : x <= m
RECURSIVE SumSeq(_, _, _)
SumSeq(f, lo, hi) == IF lo > hi THEN 0 ELSE f[lo] + SumSeq(f, lo + 1, hi)
All(g) == \A p \in DOMAIN g : g[p]
Failed(g) == {p \in DOMAIN g : ~g[p]}
=============================================================================
