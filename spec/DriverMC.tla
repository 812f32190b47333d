------------------------------ MODULE DriverMC ------------------------------
(* Exhaustive model of Driver over small constants; with GEN it also prints *)
(* every terminal behaviour as a script for replay into the real run loop.  *)
EXTENDS Driver, TLC, Json, FiniteSets

CONSTANTS Ns, Ds, DtMins, DtMaxs, IterMaxs, Cfls, Faults, Ascs, GEN

VARIABLE script      \* environment choices so far (empty unless GEN)

mvars == <<vars, script>>

Cfgs == [n : Ns, d : Ds, dtmin : DtMins, dtmax : DtMaxs, itermax : IterMaxs, asc : Ascs, tol : {0}]

MInit == /\ \E c \in Cfgs : c.dtmin < c.d /\ InitWith(c, 0)
         /\ script = <<>>

Log(c, f) == script' = IF GEN THEN Append(script, [cfl |-> c, fault |-> f]) ELSE script
New == st + 1           \* a step that succeeds produces a new state

DoSnap  == Snapshot(t, iter, IF k = 0 THEN "init" ELSE "cfl", st) /\ UNCHANGED script
DoSkip  == NoSnapshot /\ UNCHANGED script
DoFin   == Finish /\ UNCHANGED script
DoErr   == ErrDump(t, iter, "err", st) /\ UNCHANGED script
DoStep  == \E c \in Cfls : StepOk(c, Width(c), t + Width(c), New) /\ Log(c, "none")
DoSmall == \E c \in Cfls : Refuse(c) /\ Log(c, "none")
DoFault == \E f \in Faults : /\ (cfg.asc => f = "cfl")
                             /\ LET c == CHOOSE x \in Cfls : \A y \in Cfls : x >= y IN
                                 StepFail(IF f = "val" THEN New ELSE st) /\ Log(c, f)
DoBegin  == \E c \in Cfls : AscBegin(c) /\ Log(c, "none")
DoReject == \E w2 \in 1..cfg.dtmax : w2 < w /\ Reject(w2) /\ UNCHANGED script
DoAccept == \E dt \in 1..cfg.dtmax : dt <= Limit - t /\ Accept(dt, t + dt, New) /\ UNCHANGED script
DoTrialFail == TrialFail /\ UNCHANGED script

MNext == DoSnap \/ DoSkip \/ DoFin \/ DoErr \/ DoStep \/ DoSmall \/ DoFault
           \/ DoBegin \/ DoReject \/ DoAccept \/ DoTrialFail

MSpec == MInit /\ [][MNext]_mvars /\ WF_mvars(MNext)

Terminates == <>(pc = "done")

Emit == (GEN /\ pc = "done") =>
          PrintT("GEN " \o ToJson([cfg |-> cfg, script |-> script]))
=============================================================================
