---------------------------- MODULE FiniteVolume ----------------------------
(***************************************************************************)
(* One evaluation of the rate of change of a gas on S cells (two ghost     *)
(* cells on either side): conserved -> primitive variables, boundary       *)
(* conditions, conserved and derived variables, reconstruction on the cell *)
(* faces, numerical fluxes, rates.  Arrays are indexed [variable][cell].   *)
(* All quantities are in fixed point (Fx); rates are multiplied with the   *)
(* cell width.                                                             *)
(***************************************************************************)
EXTENDS Fx

ADIA == "adia"

-----------------------------------------------------------------------------
(* Variables of a single place.                                            *)
Pressure(ph, rho, p, c) == IF ph = ADIA THEN p ELSE FMul(FSq(c), rho)
Momentum(rho, v) == FMul(rho, v)
Energy(gam, rho, v, p) == FDiv(p, gam - ONE) + FMul(FMul(rho, v), v) \div 2

PhysFlux(ph, j, rho, v, p, c, m, e) ==
    CASE j = 1 -> m
      [] j = 2 -> FMul(m, v) + Pressure(ph, rho, p, c)
      [] j = 3 -> FMul(e + p, v)

(* P: primitive, U: conserved, C: speeds of sound; arrays of one place kind *)
Flux(ph, P, U, C, j, i) ==
    PhysFlux(ph, j, P[1][i], P[2][i], IF ph = ADIA THEN P[3][i] ELSE 0, C[i], U[2][i], IF ph = ADIA THEN U[3][i] ELSE 0)

(* c^2 rho = gamma p, without roots or divisions                           *)
SoundOk(ph, gam, rho, p, c) ==
    ph = ADIA => /\ c > 0
                 /\ LET l == FMul(FSq(c), rho)  r == FMul(gam, p)
                    \* an error of one unit in c amounts to 2 c rho units, one in rho to c^2
                    IN  Close(l, r, 16 + (2 * FMul(c, rho) + FSq(c)) \div (ONE \div 2) + r \div 4096)
ConsOk(ph, gam, rho, v, p, u1, u2, u3) ==
    /\ Close(u1, rho, 1)
    /\ Close(u2, Momentum(rho, v), 4 + (Abs(rho) + Abs(v)) \div 16384)
    /\ ph = ADIA => LET e == Energy(gam, rho, v, p)
                    IN Close(u3, e, 16 + Abs(e) \div 4096 + (FSq(v) + 2 * Abs(FMul(rho, v))) \div 16384)

-----------------------------------------------------------------------------
(* Boundary conditions: admissible values of ghost cell g (1 next to the   *)
(* domain, 2 outside) given the two adjacent interior values a (nearest)   *)
(* and b, the ghost value n next to it on the domain side, coordinates x   *)
(* of the ghost cell and xn of that neighbour.  inflow: the sign of a      *)
(* points into the domain (nonnegative at the west, nonpositive at the     *)
(* east); at zero both branches are acceptable.                            *)
BcCopy(v, a) == v = a
BcExtrapolate(v, g, a, b) == Close(v, (g + 1) * a - g * b, 2 * g + 2)
BcReflect(v, g, a, b) == v = -(IF g = 1 THEN a ELSE b)
BcKepler(v, n, x, xn) ==          \* v = n / sqrt(x / xn)
    /\ Sgn(v) * Sgn(n) >= 0
    /\ LET l == FMul(FSq(v), Abs(x))  r == FMul(FSq(n), Abs(xn))
       IN Close(l, r, 32 + r \div 2048 + (2 * (FMul(Abs(v), Abs(x)) + FMul(Abs(n), Abs(xn)))) \div 8192)
BcOk(mode, west, v, z, g, a, b, n, x, xn) ==
    LET into == IF west THEN a > 0 ELSE a < 0
        out  == IF west THEN a < 0 ELSE a > 0
    IN CASE mode = "NoGradients" -> BcCopy(v, a)
         [] mode = "Extrapolate" -> BcExtrapolate(v, g, a, b)
         [] mode = "NearZero" -> Abs(v) <= 1 /\ Close(z, a, 2)      \* z: v * 10^10
         [] mode = "Reflecting" -> BcReflect(v, g, a, b)
         [] mode \in {"ExtrapolateDensityKepler", "ExtrapolateEtaVelocityKepler"} -> BcKepler(v, n, x, xn)
         [] mode = "OutflowNoGradients" ->
              (~out /\ BcReflect(v, g, a, b)) \/ (~into /\ BcCopy(v, a))
         [] mode = "OutFlowExtrapolate" ->
              (~out /\ BcReflect(v, g, a, b)) \/ (~into /\ BcExtrapolate(v, g, a, b))

-----------------------------------------------------------------------------
(* Limited slopes (times the cell width) from the backward and forward     *)
(* differences a and b.                                                    *)
VanLeer(a, b) == IF Sgn(a) * Sgn(b) > 0 THEN 2 * FMul(a, FDiv(b, a + b)) ELSE 0
MinMod(a, b) == IF Sgn(a) * Sgn(b) > 0 THEN Sgn(a) * Min(Abs(a), Abs(b)) ELSE 0
Superbee(a, b) == IF Sgn(a) * Sgn(b) > 0 THEN Sgn(a) * Min(Min(Abs(a), Abs(b)), Max(Abs(a), Abs(b)) \div 2) ELSE 0
Monocent(a, b, th) ==
    IF Sgn(a) * Sgn(b) > 0
    THEN Sgn(a) * Min(Min(FMul(th, Abs(a)), FMul(th, Abs(b))), Abs(a + b) \div 2) ELSE 0
Slope(lim, th, a, b) ==
    CASE lim = "NoLimiter" -> (a + b) \div 2
      [] lim = "MinMod" -> MinMod(a, b)
      [] lim = "Superbee" -> Superbee(a, b)
      [] lim = "Monocent" -> Monocent(a, b, th)
      [] lim = "VanLeer" -> VanLeer(a, b)

-----------------------------------------------------------------------------
(* The flux through a face between a left and a right state: Hll, and      *)
(* Kurganov-Tadmor in its central-upwind form.                             *)
SpeedL(vl, cl, vr, cr) == Min(0, Min(vl - cl, vr - cr))
SpeedR(vl, cl, vr, cr) == Max(0, Max(vl + cl, vr + cr))
NumFlux(sl, sr, fl, fr, ul, ur) ==
    LET wr == FDiv(-sl, sr - sl)     \* weight of the right state
        wl == ONE - wr
    IN  FMul(wl, fl) + FMul(wr, fr) - FMul(wr, FMul(sr, ur - ul))

(* flux through the east face of cell i; LP.. describe the places on the   *)
(* left of the faces (indexed by the cell west of it), RP.. on the right   *)
FaceFlux(ph, LP, LU, LC, RP, RU, RC, j, i) ==
    LET sl == SpeedL(LP[2][i], LC[i], RP[2][i + 1], RC[i + 1])
        sr == SpeedR(LP[2][i], LC[i], RP[2][i + 1], RC[i + 1])
    IN  NumFlux(sl, sr, Flux(ph, LP, LU, LC, j, i), Flux(ph, RP, RU, RC, j, i + 1), LU[j][i], RU[j][i + 1])
=============================================================================
