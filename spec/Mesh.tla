--------------------------------- MODULE Mesh ----------------------------------
(* Cells laid from west to east.  Positions are integers in units of half the *)
(* common unit of edge (a) and width (b), so every face and centre is exact.  *)
EXTENDS Integers, Sequences
Ghosts == 2
\* cell i = 1.. of a grid of s cells: the inner edge is the west face of cell 3
WestFace(a, b, i) == 2 * a + 2 * b * (i - 1 - Ghosts)
Centre(a, b, i) == WestFace(a, b, i) + b
EastFace(a, b, i) == WestFace(a, b, i) + 2 * b
Width(b) == 2 * b
Inner(s) == s - 2 * Ghosts
\* some face or centre, ghost cells included, lies at zero
ZeroOn(a, b, s) == \/ 2 * a = 2 * b * Ghosts
                   \/ b > 0 /\ (2 * a) % b = 0 /\ LET q == -((2 * a) \div b) IN q >= -2 * Ghosts /\ q <= 2 * (s - Ghosts)
\* the numbers a grid of s cells reports about itself: cells, inner cells, ghosts, first, last, first inner, last inner
Numbers(s) == <<s, Inner(s), Ghosts, 0, s - 1, Ghosts, s - 1 - Ghosts>>
=============================================================================
