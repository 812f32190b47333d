---------------------------- MODULE ValidationMC ----------------------------
(* Enumerates the ways in which one step may end: which cell, which kind of  *)
(* value, which boundary conditions and scheme.  Admissible states are       *)
(* closed under convex combination, so with constant rates every             *)
(* intermediate state is admissible if the first and the last one are        *)
(* (checked here); the outcome of each case is decided by ValTrace.          *)
EXTENDS Validation, TLC, Json
VARIABLES case, ph
vars == <<case, ph>>
Targets == { <<8, 0, 8>>, <<8, 4, 9>>, <<1, 3, 5>>,              \* admissible
             <<0, 0, 8>>, <<-4, 0, 8>>, <<0, 0, 0>>, <<-8, 2, -3>>,   \* density
             <<8, 0, 0>>, <<8, 8, 4>>, <<8, 0, -4>>, <<8, -12, 8>>, <<2, 4, 3>>, <<2, 2, 1>> }   \* pressure
\* generation draws cases at random
GInit == /\ case \in [adia : BOOLEAN, kind : {"value"}, mode : {"RK1"}, t : Targets] /\ ph = "go"
Draw(s) == RandomElement(s)
GNext == /\ ph = "go" /\ ph' = "over" /\ UNCHANGED case
         /\ \A i \in 1..200 :
              LET nf == RandomElement(1..6) IN
              PrintT("GEN " \o ToJson(
              [adia |-> case.adia, cell |-> Draw({1, 2, 3, 5, 6}), t |-> case.t,
               kind |-> IF nf = 1 THEN Draw({"nan", "inf", "minf"}) ELSE "value", var |-> Draw(1..3),
               bw |-> Draw({"NoGradients", "NoGradients", "Extrapolate", "Reflecting", "NearZero"}),
               be |-> Draw({"NoGradients", "Extrapolate", "Reflecting", "NearZero"}), onw |-> Draw(1..3), one |-> Draw(1..3),
               mode |-> Draw({"RK1", "RK2", "RK3", "RK4", "Heun2", "RKF12", "RKF45", "SSPRK3", "SSPRK5"}), asc |-> Draw(BOOLEAN),
               lam |-> Draw({0, 0, -200, 150}), warm |-> Draw(BOOLEAN), r |-> i]))
GSpec == GInit /\ [][GNext]_vars

\* convexity on small triples
Small == {<<r, m, e>> : r \in 1..4, m \in -3..3, e \in -1..4}
MInit == ph = "pair" /\ case \in {x \in Small : CellAdm(TRUE, x)}
MNext == ph = "pair" /\ ph' = "done" /\ case' \in {x \in Small : CellAdm(TRUE, x)} /\
         \A k \in 1..3 : CellAdm(TRUE, [i \in 1..3 |-> k * case[i] + (4 - k) * case'[i]])
MSpec == MInit /\ [][MNext]_vars
Convex == \A x \in Small : (ph = "pair" /\ CellAdm(TRUE, x)) =>
            \A k \in 1..3 : CellAdm(TRUE, [i \in 1..3 |-> k * case[i] + (4 - k) * x[i]])
=============================================================================
