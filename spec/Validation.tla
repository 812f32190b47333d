------------------------------ MODULE Validation ------------------------------
(* Which states are physical.  A cell is the integer triple (density,        *)
(* momentum, energy) in arbitrary units per cell: admissibility does not     *)
(* depend on the unit.  "bad" marks a cell with a value that is not finite.  *)
EXTENDS Integers, Sequences
Sg(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
\* sign of the pressure of an adiabatic gas: E - m^2 / (2 rho) for rho > 0
Kin(c) == 2 * c[1] * c[3] - c[2] * c[2]
CellAdm(adia, c) == c[1] > 0 /\ (adia => Kin(c) > 0)

(* Ghost cells: sign of the density and pressure given by a linear boundary  *)
(* condition; a is the adjacent interior cell, b the next one, g = 1, 2.     *)
\* pressures as fractions Kin / (2 rho); both cells admissible
GhostRho(mode, g, a, b) ==
    CASE mode = "NoGradients" -> Sg(a[1])
      [] mode = "Extrapolate" -> Sg((g + 1) * a[1] - g * b[1])
      [] mode = "Reflecting" -> -Sg(IF g = 1 THEN a[1] ELSE b[1])
      [] mode = "NearZero" -> Sg(a[1])
GhostP(mode, g, a, b) ==
    CASE mode = "NoGradients" -> Sg(Kin(a))
      [] mode = "Extrapolate" -> Sg((g + 1) * Kin(a) * b[1] - g * Kin(b) * a[1])
      [] mode = "Reflecting" -> -Sg(IF g = 1 THEN Kin(a) ELSE Kin(b))
      [] mode = "NearZero" -> Sg(Kin(a))
=============================================================================
