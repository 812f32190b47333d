-------------------------------- MODULE MeshMC ---------------------------------
(* The grid laid cell by cell; what must hold of every part of it.            *)
EXTENDS Mesh
CONSTANTS MaxEdge, MaxWidth, MaxCells
VARIABLES a, b, s, cells
vars == <<a, b, s, cells>>
Init == /\ a \in -MaxEdge..MaxEdge /\ b \in 1..MaxWidth /\ s \in 5..MaxCells /\ cells = <<>>
Lay == /\ Len(cells) < s
       /\ LET i == Len(cells) + 1 IN cells' = Append(cells, <<WestFace(a, b, i), Centre(a, b, i), EastFace(a, b, i)>>)
       /\ UNCHANGED <<a, b, s>>
Spec == Init /\ [][Lay]_vars
NoGapNoOverlap == \A i \in 1..Len(cells) - 1 : cells[i][3] = cells[i + 1][1]
Increasing == \A i \in 1..Len(cells) : cells[i][1] < cells[i][2] /\ cells[i][2] < cells[i][3]
Midway == \A i \in 1..Len(cells) : 2 * cells[i][2] = cells[i][1] + cells[i][3]
SameWidth == \A i \in 1..Len(cells) : cells[i][3] - cells[i][1] = Width(b)
\* the inner cells cover the domain a .. a + n * b
Covers == Len(cells) = s =>
    LET n == Numbers(s)
        first == n[6] + 1
        last == n[7] + 1
    IN /\ cells[first][1] = 2 * a /\ cells[last][3] = 2 * (a + n[2] * b)
       /\ last - first + 1 = n[2] /\ first = n[3] + 1 /\ s - last = n[3] /\ n[5] = Len(cells) - 1
ZeroDecided == Len(cells) = s => (ZeroOn(a, b, s) <=> \E i \in 1..s, k \in 1..3 : cells[i][k] = 0)
=============================================================================
