-------------------------------- MODULE Presets --------------------------------
(* The ready-made configurations as they are documented, as functions of what *)
(* they are asked for.  Numbers are their shortest decimal text.              *)
EXTENDS SetupRules, TLC
MeshPreset == [mode |-> "Cartesian", xi_in |-> "1.0", xi_out |-> "2.0"]
PhysicsPreset == [gamma |-> "1.6666666666666667", units |-> "SI"]
SchemePreset == [scheme |-> "SSPRK5", asc |-> FALSE, rtol |-> "0.001", atol |-> "0.001", fric |-> "0.08"]
FluxDefault == [flux |-> "Kt", lim |-> "VanLeer"]
FluxPreset(type) == IF type = "Kt" THEN FluxDefault ELSE [flux |-> "Hll", lim |-> ""]
NumericsPreset(type, tEnd) == [flux |-> FluxPreset(type), time |-> SchemePreset, iter |-> "18446744073709551613", t0 |-> "0.0", t_end |-> tEnd,
                               dt_min |-> "1e-12", dt_max |-> "MAX", cfl |-> "0.4"]
StdoutNames(cols) == [file |-> FALSE, vec |-> FALSE, tsv |-> TRUE, folder |-> "", name |-> "", clear |-> FALSE, prec |-> 3, ghost |-> FALSE,
                      meta |-> FALSE, cols |-> cols]
StdoutPreset == StdoutNames(<<"iter", "t", "dt", "dt_kind">>)
FileNames(folder, name, cols) == [file |-> TRUE, vec |-> TRUE, tsv |-> FALSE, folder |-> folder, name |-> name, clear |-> TRUE, prec |-> 7,
                                  ghost |-> TRUE, meta |-> TRUE, cols |-> cols]
PrimCol == <<"prim_0", "prim_1", "prim_2", "prim_3", "prim_4", "prim_5", "prim_6", "prim_7", "prim_8", "prim_9", "prim_10", "prim_11">>
FileCols(e) == <<"t", "xi_cent">> \o SubSeq(PrimCol, 1, e)
FilePreset(folder, name, e) == FileNames(folder, name, FileCols(e))
RunPreset(type, tEnd, folder, name, e) ==
  [banner |-> FALSE, mesh |-> MeshPreset, physics |-> PhysicsPreset, west |-> "NoGradients", east |-> "NoGradients",
   numerics |-> NumericsPreset(type, tEnd), outputs |-> 1, streams |-> <<StdoutPreset, FilePreset(folder, name, e)>>]
Words == [limiter |-> "VanLeer", scheme |-> "SSPRK5", side |-> "NoGradients", custom |-> "NoGradients", units |-> "SI", stream |-> "Stdout",
          shape |-> "Scalar", format |-> "TSV", place |-> "Cent"]

(* --- the same configuration as the rules of set-up see it: a number between *)
(* two eighths is moved up from the lower one                                 *)
Place(x) == CASE x = "1.0" -> One
              [] x = "2.0" -> Num(16, 0)
              [] x = "0.0" -> Zero
              [] x = "1.6666666666666667" -> Num(13, 1)
              [] x = "0.4" -> Num(3, 1)
              [] x \in {"0.001", "0.08", "1e-12"} -> Num(0, 1)
              [] x = "MAX" -> Num(1000000000, 0)
AsSetup(c, type, t) ==
  LET n == c.numerics  m == n.time
  IN [xi_in |-> Place(c.mesh.xi_in), xi_out |-> Place(c.mesh.xi_out), gamma |-> Place(c.physics.gamma), p |-> Zero, lim |-> n.flux.lim,
      flux |-> n.flux.flux, type |-> type, iter |-> 2, t0 |-> Place(n.t0), t_end |-> t, dt_min |-> Place(n.dt_min), dt_max |-> Place(n.dt_max),
      cfl |-> Place(n.cfl), rtol |-> Place(m.rtol), atol |-> Place(m.atol), fric |-> Place(m.fric), streams |-> c.streams]
\* what a run so configured leaves in its folder
Data(name, o) == name \o "_" \o ToString(o) \o ".csv"
Left(c) == {Data(c.streams[2].name, o) : o \in 0..c.outputs} \cup {c.streams[2].name \o "__metadata.json"}
=============================================================================
