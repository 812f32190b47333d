------------------------------- MODULE PresetsMC -------------------------------
(* A ready-made configuration is accepted for every end time after the start  *)
(* and every folder and file that has a name, and for no other.               *)
EXTENDS Presets
VARIABLES a, c
Times == {Zero, Num(0, 1), Num(0, -1), Num(-8, 0), One, Num(64, 0), NaN, Num(1000000, 0)}
Names == {"", "out", "x.y"}
MCInit == /\ a \in [type : {"Hll", "Kt"}, t : Times, folder : Names, name : Names, e : 1..3, mesh : 6..120]
          /\ c = RunPreset(a.type, "t", a.folder, a.name, a.e)
MCNext == UNCHANGED <<a, c>>
MCSpec == MCInit /\ [][MCNext]_<<a, c>>
Accepted == Valid(AsSetup(c, a.type, a.t)) <=> (Positive(a.t) /\ a.folder # "" /\ a.name # "")
DecidedAlways == Decided(AsSetup(c, a.type, a.t))
Otherwise == {"Hll", "Kt"} \ {a.type}
Mismatch == \A x \in Otherwise : ~Valid(AsSetup(c, x, a.t))
\* its mesh has no face or centre at coordinate zero, but for the smallest size of all
NoZero == a.mesh > 6 => ~AtZero(AsSetup(c, a.type, a.t), a.mesh)
AllColumns == \A j \in 1..a.e : \E x \in 1..Len(c.streams[2].cols) : c.streams[2].cols[x] = PrimCol[j]
=============================================================================
