------------------------------ MODULE PresetsTrace ------------------------------
(* Decides what the code's ready-made configurations carry ("part", "whole"), *)
(* whether they are accepted, and the runs they configure ("run").            *)
EXTENDS Presets, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, fn
e == Trace[l]
a == e.args
Report(g) == \A p \in {x \in DOMAIN g : ~g[x]} : PrintT("REJECT " \o p \o " " \o ToString(l))

Documented == CASE e.which = "mesh" -> MeshPreset
                [] e.which = "physics" -> PhysicsPreset
                [] e.which \in {"scheme", "time"} -> SchemePreset
                [] e.which = "flux" -> FluxDefault
                [] e.which = "words" -> Words
                [] e.which = "stdout" -> StdoutPreset
                [] e.which = "numerics" -> NumericsPreset(a.flux, a.t_end)
                [] e.which = "stdout-names" -> StdoutNames(a.cols)
                [] e.which = "file-names" -> FileNames(a.folder, a.name, a.cols)
                [] e.which = "file" -> FilePreset(a.folder, a.name, a.e)
PartG == [ C28 |-> e.got = Documented ]
Asked == RunPreset(a.flux, a.t_end, a.folder, a.name, a.e)
WholeG == [ C28 |-> /\ e.res # "panic" /\ e.got = Asked
                    /\ (e.res = "ok") <=> Valid(AsSetup(Asked, a.flux, a.t)) ]
(* --- a run that succeeds leaves the first and the last snapshot, with one   *)
(* row per cell, and nothing else; the text of a time has seven decimals      *)
Asc == RunPreset(a.flux, "t", "out", a.name, a.e)
Abs(x) == IF x < 0 THEN -x ELSE x
IsData(f, o) == f.n = Data(a.name, o) => f.head = FileCols(a.e) /\ f.rows = e.s /\ Len(f.t) = 1 /\ Abs(f.t[1] - (IF o = 0 THEN 0 ELSE e.tend)) <= 1
RunG == [ C28 |-> /\ e.res # "panic"
                  /\ e.res = "ok" => /\ e.exact /\ Abs(e.at - e.tend) <= 1
                                     /\ {e.files[x].n : x \in 1..Len(e.files)} = Left(Asc)
                                     /\ \A x \in 1..Len(e.files), o \in 0..1 : IsData(e.files[x], o) ]
Kind == CASE e.ev = "part" -> e.which
          [] e.ev = "whole" -> "whole-" \o e.res
          [] OTHER -> "run-" \o e.res
Check == /\ PrintT("CLASS " \o Kind)
         /\ CASE e.ev = "part" -> Report(PartG) [] e.ev = "whole" -> Report(WholeG) [] OTHER -> Report(RunG)
Init == l \in 1..Len(Trace) /\ fn = FALSE
Next == ~fn /\ Check /\ fn' = TRUE /\ PrintT("CASE " \o ToString(l)) /\ UNCHANGED l
Spec == Init /\ [][Next]_<<l, fn>>
=============================================================================
