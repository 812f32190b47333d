-------------------------------- MODULE FVMC --------------------------------
(* Exhaustive check of the discretisation on all small isothermal states:  *)
(* conservation, uniform flow, mirror symmetry, locality, upwinding and    *)
(* the total variation properties of the limiters.                         *)
EXTENDS FiniteVolume, TLC, IOUtils
(* number of cells and limiter (or "none" for the scheme without reconstruction) come from the environment *)
S == IF IOEnv.CELLS = "8" THEN 8 ELSE 7
Lim == IOEnv.LIMITER
Rhos == {ONE, 4 * ONE}
Vels == {-3 * ONE, 0, ONE \div 2, 3 * ONE}
VARIABLES rho, v, pc, fn
vars == <<rho, v, pc, fn>>
Cells == 1..S
Th == (3 * ONE) \div 2
Cs == [i \in Cells |-> ONE]

TypeInit == /\ rho \in [3..S-2 -> Rhos] /\ v \in [3..S-2 -> Vels]
(* zero-gradient ghost cells *)
Clamp(i) == IF i < 3 THEN 3 ELSE IF i > S - 2 THEN S - 2 ELSE i
PrimOf(r, w) == << [i \in Cells |-> r[Clamp(i)]], [i \in Cells |-> w[Clamp(i)]] >>
ConsOf(P) == << P[1], [i \in Cells |-> FMul(P[1][i], P[2][i])] >>
Face(U, side) ==       \* side -1 west, +1 east
    [j \in 1..2 |-> [i \in 2..S-1 |->
        LET s == IF Lim = "none" THEN 0 ELSE Slope(Lim, Th, U[j][i] - U[j][i-1], U[j][i+1] - U[j][i])
        IN U[j][i] + side * (s \div 2)]]
PrimFace(F) == << F[1], [i \in 2..S-1 |-> FDiv(F[2][i], F[1][i])] >>
Fluxes(r, w) ==
    LET U == ConsOf(PrimOf(r, w))
        E == Face(U, 1)  W == Face(U, -1)
        PE == PrimFace(E) PW == PrimFace(W)
    IN [j \in 1..2 |-> [i \in 2..S-2 |-> FaceFlux("isot", PE, E, Cs, PW, W, Cs, j, i)]]
Rate(f, j, i) == f[j][i] - f[j][i - 1]
Mirror(f) == [i \in 3..S-2 |-> f[S + 1 - i]]
Neg(f) == [i \in 3..S-2 |-> -f[i]]

Init == TypeInit /\ pc = "state" /\ fn = <<>>
Eval == pc = "state" /\ pc' = "rates" /\ fn' = Fluxes(rho, v) /\ UNCHANGED <<rho, v>>
Next == Eval
Spec == Init /\ [][Next]_vars

Tol == 256
(* C08: only the outer faces change the totals *)
Conservative == pc = "rates" =>
    \A j \in 1..2 : SumSeq([i \in 3..S-2 |-> Rate(fn, j, i)], 3, S-2) = fn[j][S-2] - fn[j][2]
Uniform(r, w) == \A i \in 3..S-2 : r[i] = r[3] /\ w[i] = w[3]
(* C09 *)
UniformStays == pc = "rates" /\ Uniform(rho, v) => \A j \in 1..2, i \in 3..S-2 : Abs(Rate(fn, j, i)) <= 4
(* C10 *)
MirrorSymmetric == pc = "rates" =>
    LET g == Fluxes(Mirror(rho), Neg(Mirror(v)))
    IN \A i \in 3..S-2 : /\ Close(Rate(g, 1, i), Rate(fn, 1, S + 1 - i), Tol)
                         /\ Close(Rate(g, 2, i), -Rate(fn, 2, S + 1 - i), Tol)
(* C11: pure upwind flux when everything moves faster than sound *)
Upwind == pc = "rates" /\ (\A i \in 3..S-2 : v[i] > 2 * ONE) /\ Lim = "none" =>
    LET U == ConsOf(PrimOf(rho, v))
    IN \A i \in 2..S-2 : fn[1][i] = U[2][i]
(* C24: cells outside the stencil do not matter *)
Reach == IF Lim = "none" THEN 1 ELSE 2
Changed(f, k, x) == [f EXCEPT ![k] = x]
Local == pc = "rates" =>
    \A k \in {3, S-2}, x \in Rhos : LET g == Fluxes(Changed(rho, k, x), v)
        IN \A i \in 3..S-2 : (Abs(i - k) > Reach) => \A j \in 1..2 : Rate(g, j, i) = Rate(fn, j, i)
(* C12: face values between the neighbours, flat at extrema *)
Between(x, a, b) == Min(a, b) - 1 <= x /\ x <= Max(a, b) + 1
NoNewExtrema == Lim # "none" /\ Lim # "NoLimiter" /\ pc = "rates" =>
    LET U == ConsOf(PrimOf(rho, v))  E == Face(U, 1)  W == Face(U, -1)
    IN \A j \in 1..2, i \in 2..S-1 :
        /\ Between(W[j][i], U[j][i], U[j][i-1]) /\ Between(E[j][i], U[j][i], U[j][i+1])
        /\ (U[j][i] - U[j][i-1] > 0) = (U[j][i+1] - U[j][i] < 0) => E[j][i] = U[j][i] /\ W[j][i] = U[j][i]
(* C11: the flux of equal states is the physical flux *)
Consistent == pc = "rates" => \A i \in 2..S-2 :
    (rho[Clamp(i)] = rho[Clamp(i+1)] /\ v[Clamp(i)] = v[Clamp(i+1)] /\ Lim = "none") =>
        LET P == PrimOf(rho, v) U == ConsOf(P)
        IN \A j \in 1..2 : Close(fn[j][i], Flux("isot", P, U, Cs, j, i), 8)
(* C26: twice as dense a gas has twice the rates *)
Double(f) == [i \in DOMAIN f |-> 2 * f[i]]
Scaled == pc = "rates" =>
    LET g == Fluxes(Double(rho), v)
    IN \A j \in 1..2, i \in 2..S-2 : Close(g[j][i], 2 * fn[j][i], Tol)
(* C27: what moves by one cell has the rates moved by one cell *)
Moved(f) == [i \in 3..S-2 |-> f[IF i < S - 2 THEN i + 1 ELSE S - 2]]
Displaced == pc = "rates" /\ rho[3] = rho[4] /\ v[3] = v[4] =>
    LET g == Fluxes(Moved(rho), Moved(v))
    IN \A j \in 1..2, i \in 2..S-3 : g[j][i] = fn[j][i + 1]
=============================================================================
