----------------------------- MODULE RungeKutta -----------------------------
(* The selectable time schemes: published Butcher tableaus as exact          *)
(* rationals <<n, d>>, their order conditions, and the arithmetic of a step. *)
(* With the sign convention of the code the state changes by minus the       *)
(* rates, so a stage state is u0 minus the combination of the increments     *)
(* D = dt * rate, and displacements V = u - u0 are minus that combination.   *)
EXTENDS Fx
Modes == {"RK1", "RK2", "RK3", "RK4", "Heun2", "RKF12", "RKF45", "SSPRK3", "SSPRK5"}
Z == <<0, 1>>
D5(n) == <<n, 100000>>                     \* five published decimals

\* rows 2..s of the strictly lower triangular matrix, row q has q-1 entries
A(m) ==
    CASE m = "RK1"    -> << << >> >>
      [] m = "RK2"    -> << << >>, << <<1, 2>> >> >>
      [] m = "RK3"    -> << << >>, << <<1, 2>> >>, << <<-1, 1>>, <<2, 1>> >> >>
      [] m = "RK4"    -> << << >>, << <<1, 2>> >>, << Z, <<1, 2>> >>, << Z, Z, <<1, 1>> >> >>
      [] m = "Heun2"  -> << << >>, << <<1, 1>> >> >>
      [] m = "RKF12"  -> << << >>, << <<1, 2>> >>, << <<1, 256>>, <<255, 256>> >> >>
      [] m = "RKF45"  -> << << >>, << <<1, 4>> >>, << <<3, 32>>, <<9, 32>> >>,
                            << <<1932, 2197>>, <<-7200, 2197>>, <<7296, 2197>> >>,
                            << <<439, 216>>, <<-8, 1>>, <<3680, 513>>, <<-845, 4104>> >>,
                            << <<-8, 27>>, <<2, 1>>, <<-3544, 2565>>, <<1859, 4104>>, <<-11, 40>> >> >>
      [] m = "SSPRK3" -> << << >>, << <<1, 1>> >>, << <<1, 4>>, <<1, 4>> >> >>
      [] m = "SSPRK5" -> << << >>, << D5(36717) >>, << D5(26802), D5(31720) >>, << D5(11606), D5(13735), D5(18816) >>,
                            << D5(11212), D5(13269), D5(18178), D5(41980) >> >>
B(m) ==
    CASE m = "RK1"    -> << <<1, 1>> >>
      [] m = "RK2"    -> << Z, <<1, 1>> >>
      [] m = "RK3"    -> << <<1, 6>>, <<2, 3>>, <<1, 6>> >>
      [] m = "RK4"    -> << <<1, 6>>, <<1, 3>>, <<1, 3>>, <<1, 6>> >>
      [] m = "Heun2"  -> << <<1, 2>>, <<1, 2>> >>
      [] m = "RKF12"  -> << <<1, 512>>, <<255, 256>>, <<1, 512>> >>
      [] m = "RKF45"  -> << <<16, 135>>, Z, <<6656, 12825>>, <<28561, 56430>>, <<-9, 50>>, <<2, 55>> >>
      [] m = "SSPRK3" -> << <<1, 6>>, <<1, 6>>, <<2, 3>> >>
      [] m = "SSPRK5" -> << D5(17279), <<18901, 200000>>, D5(12947), D5(29899), D5(30424) >>
\* the embedded scheme that the step control compares with
Embedded == {"RK3", "Heun2", "RKF12", "RKF45", "SSPRK3", "SSPRK5"}
BLow(m) ==
    CASE m = "RK3"    -> << Z, <<1, 1>>, Z >>
      [] m = "Heun2"  -> << <<1, 1>>, Z >>
      [] m = "RKF12"  -> << <<1, 256>>, <<255, 256>>, Z >>
      [] m = "RKF45"  -> << <<25, 216>>, Z, <<1408, 2565>>, <<2197, 4104>>, <<-1, 5>>, Z >>
      [] m = "SSPRK3" -> << <<1, 2>>, <<1, 2>>, Z >>
      [] m = "SSPRK5" -> << D5(12293), D5(31981), D5(-15316), D5(31887), D5(39155) >>
\* B - BLow in lowest terms (checked against both by the model)
Diff(m) ==
    CASE m = "RK3"    -> << <<1, 6>>, <<-1, 3>>, <<1, 6>> >>
      [] m = "Heun2"  -> << <<-1, 2>>, <<1, 2>> >>
      [] m = "RKF12"  -> << <<-1, 512>>, Z, <<1, 512>> >>
      [] m = "RKF45"  -> << <<1, 360>>, Z, <<-128, 4275>>, <<-2197, 75240>>, <<1, 50>>, <<2, 55>> >>
      [] m = "SSPRK3" -> << <<-1, 3>>, <<-1, 3>>, <<2, 3>> >>
      [] m = "SSPRK5" -> << D5(4986), <<-45061, 200000>>, D5(28263), D5(-1988), D5(-8731) >>
Stages(m) == Len(B(m))
Order(m) == CASE m = "RK1" -> 1 [] m \in {"RK2", "Heun2", "RKF12"} -> 2 [] m \in {"RK3", "SSPRK3", "SSPRK5"} -> 3
              [] m = "RK4" -> 4 [] m = "RKF45" -> 5
LowOrder(m) == CASE m \in {"Heun2", "RKF12"} -> 1 [] m \in {"RK3", "SSPRK3"} -> 2 [] m \in {"RKF45", "SSPRK5"} -> 4
\* (SSPRK5 advances the strong-stability-preserving third order member of its pair and compares it with the fourth order one)
Rounded(m) == m = "SSPRK5"                 \* published to five decimals only

(* --- order conditions by rooted trees: a tree is the sequence of its       *)
(* subtrees; sum_i b_i Phi_i(t) = 1 / Gamma(t)                               *)
Lf == << >>
T2 == << Lf >>
T3 == << Lf, Lf >>   T3b == << T2 >>
T4 == << Lf, Lf, Lf >>  T4b == << Lf, T2 >>  T4c == << T3 >>  T4d == << T3b >>
Trees(k) ==
    CASE k = 1 -> << Lf >>  [] k = 2 -> << T2 >>  [] k = 3 -> << T3, T3b >>  [] k = 4 -> << T4, T4b, T4c, T4d >>
      [] k = 5 -> << <<Lf, Lf, Lf, Lf>>, <<Lf, Lf, T2>>, <<Lf, T3>>, <<Lf, T3b>>, <<T2, T2>>, <<T4>>, <<T4b>>, <<T4c>>, <<T4d>> >>
RECURSIVE Size(_), SizeSum(_, _), Gamma(_), GammaProd(_, _)
Size(t) == 1 + SizeSum(t, Len(t))
SizeSum(t, k) == IF k = 0 THEN 0 ELSE Size(t[k]) + SizeSum(t, k - 1)
Gamma(t) == Size(t) * GammaProd(t, Len(t))
GammaProd(t, k) == IF k = 0 THEN 1 ELSE Gamma(t[k]) * GammaProd(t, k - 1)

\* arithmetic modulo a prime below 2^15.5; enough primes make the comparison of the rationals exact
Primes == << 46337, 46327, 46309, 46307, 46301, 46279, 46273, 46271, 46261, 46237, 46229, 46219 >>
RECURSIVE Pow(_, _, _)
Pow(x, k, p) == IF k = 0 THEN 1 ELSE LET h == Pow(x, k \div 2, p)  s == (h * h) % p IN IF k % 2 = 0 THEN s ELSE (s * x) % p
Mod(r, p) == ((((r[1] % p) + p) % p) * Pow(r[2] % p, p - 2, p)) % p
RECURSIVE PhiM(_, _, _, _), PhiMP(_, _, _, _, _), PhiMS(_, _, _, _, _)
PhiM(a, i, t, p) == PhiMP(a, i, t, Len(t), p)
PhiMP(a, i, t, k, p) == IF k = 0 THEN 1 ELSE (PhiMS(a, i, t[k], i - 1, p) * PhiMP(a, i, t, k - 1, p)) % p
PhiMS(a, i, t, j, p) == IF j = 0 THEN 0 ELSE (a[i][j] * PhiM(a, j, t, p) + PhiMS(a, i, t, j - 1, p)) % p
RECURSIVE SumM(_, _, _, _, _)
SumM(a, b, t, i, p) == IF i = 0 THEN 0 ELSE (b[i] * PhiM(a, i, t, p) + SumM(a, b, t, i - 1, p)) % p
ModA(m, p) == [i \in 1..Stages(m) |-> [j \in 1..(i - 1) |-> Mod(A(m)[i][j], p)]]
ModB(b, p) == [i \in 1..Len(b) |-> Mod(b[i], p)]
CondExact(m, b, t, p) == SumM(ModA(m, p), ModB(b, p), t, Len(b), p) = Mod(<<1, Gamma(t)>>, p)
DiffExact(m, p) == \A i \in 1..Stages(m) : (ModB(Diff(m), p)[i] + ModB(BLow(m), p)[i]) % p = ModB(B(m), p)[i]

(* --- arithmetic of a step on integers                                      *)
\* x * n / d for |x| < 2^26 and |n / d| < 16, whatever the size of n and d (below 2^17.6)
RECURSIVE Horner(_, _, _)
Horner(n, xr, d) ==     \* <<q, r>> with n * xr = q * d + r
    IF n = 0 THEN << 0, 0 >>
    ELSE LET h == Horner(n \div 10, xr, d)  y == h[2] * 10 + (n % 10) * xr IN << h[1] * 10 + y \div d, y % d >>
BigNat(x, n, d) == LET h == Horner(n, x % d, d) IN (x \div d) * n + h[1] + (IF 2 * h[2] >= d THEN 1 ELSE 0)
Big(x, n, d) == IF (x < 0) = (n < 0) THEN BigNat(Abs(x), Abs(n), d) ELSE 0 - BigNat(Abs(x), Abs(n), d)
MulQ(x, r) == IF r[1] = 0 \/ x = 0 THEN 0 ELSE IF r[2] < 46000 /\ Abs(r[1]) < 46000 THEN MulRat(x, r[1], r[2]) ELSE Big(x, r[1], r[2])
RECURSIVE Comb(_, _, _, _, _)
Comb(row, D, j, i, k) ==   \* sum over the first k stages of row[k] * D[k][j][i]
    IF k = 0 THEN 0 ELSE MulQ(D[k][j][i], row[k]) + Comb(row, D, j, i, k - 1)
StageV(m, D, j, i, q) == -Comb(A(m)[q], D, j, i, q - 1)
HighV(m, D, j, i) == -Comb(B(m), D, j, i, Stages(m))
DiffV(m, D, j, i) == -Comb(Diff(m), D, j, i, Stages(m))
\* a coefficient as an integer multiple of 1e-8
Digits(r) == LET n == Abs(r[1]) d == r[2]
                 q0 == n \div d            r0 == n % d
                 q1 == (r0 * 100) \div d   r1 == (r0 * 100) % d
                 q2 == (r1 * 100) \div d   r2 == (r1 * 100) % d
                 q3 == (r2 * 100) \div d   r3 == (r2 * 100) % d
                 q4 == (r3 * 100 + d \div 2) \div d
                 v == q0 * 100000000 + q1 * 1000000 + q2 * 10000 + q3 * 100 + q4
             IN IF r[1] < 0 THEN -v ELSE v

\* the rounded scheme in fixed point
Val(r) == MulQ(ONE, r)
RECURSIVE PhiF(_, _, _), PhiFP(_, _, _, _), PhiFS(_, _, _, _), SumF(_, _, _, _)
PhiF(a, i, t) == PhiFP(a, i, t, Len(t))
PhiFP(a, i, t, k) == IF k = 0 THEN ONE ELSE FMul(PhiFS(a, i, t[k], i - 1), PhiFP(a, i, t, k - 1))
PhiFS(a, i, t, j) == IF j = 0 THEN 0 ELSE FMul(a[i][j], PhiF(a, j, t)) + PhiFS(a, i, t, j - 1)
SumF(a, b, t, i) == IF i = 0 THEN 0 ELSE FMul(b[i], PhiF(a, i, t)) + SumF(a, b, t, i - 1)
ValA(m) == [i \in 1..Stages(m) |-> [j \in 1..(i - 1) |-> Val(A(m)[i][j])]]
CondClose(m, b, t) == Abs(SumF(ValA(m), [i \in 1..Len(b) |-> Val(b[i])], t, Len(b)) - ONE \div Gamma(t)) <= 12
=============================================================================
