-------------------------------- MODULE Setup ---------------------------------
(* Setting up a simulation: the order in which it is built from a             *)
(* configuration, and what may have happened when it is refused.              *)
EXTENDS SetupRules
VARIABLES k, fails,   \* the configuration, and whether the initial condition fails
          ph, touched, calls
su == <<k, fails, ph, touched, calls>>
To(from, good, next) == ph = from /\ ph' = (IF good THEN next ELSE "refused") /\ UNCHANGED <<k, fails, touched, calls>>
Rules == To("config", DomainRule(k) /\ GammaRule(k) /\ LimiterRule(k) /\ StepRule(k) /\ TimeRule(k) /\ ToleranceRule(k) /\ StreamsRule(k), "mesh")
MakeMesh == To("mesh", TRUE, "solver")
MakeSolver == To("solver", FluxRule(k), "folders")
Folders == /\ ph = "folders" /\ ph' = "init"
           /\ touched' = \E x \in 1..Len(k.streams) : k.streams[x].file
           /\ UNCHANGED <<k, fails, calls>>
InitialCondition == /\ ph = "init" /\ calls' = calls + 1
                    /\ ph' = (IF fails THEN "refused" ELSE "complete")
                    /\ UNCHANGED <<k, fails, touched>>
Complete == To("complete", TRUE, "ready")
SNext == Rules \/ MakeMesh \/ MakeSolver \/ Folders \/ InitialCondition \/ Complete
\* C19
NoEffectOfInvalid == ~Valid(k) => ~touched /\ calls = 0 /\ ph # "ready"
ValidIsAccepted == (Valid(k) /\ ph = "refused") => fails
\* C25
OnceAndOnlyOnce == calls <= 1 /\ (ph \in {"complete", "ready"} => calls = 1 /\ ~fails)
FailureReturned == (fails /\ calls = 1) => ph = "refused"
=============================================================================
