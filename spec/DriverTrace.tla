---------------------------- MODULE DriverTrace ----------------------------
(* Checks recorded runs of the real code against Driver.  One case per      *)
(* "cfg" line; its events follow up to and including "end".  Every event is *)
(* given its action's effect; the labels of false guards are reported.      *)
EXTENDS Driver, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Starts == {i \in 1..Len(Trace) : Trace[i].ev = "cfg"}

VARIABLES l, id, fault      \* fault: token of the step that failed, 0 if none
tvars == <<vars, l, id, fault>>

Ev == Trace[l]
Report(g) == \A p \in Failed(g) : PrintT("REJECT " \o p \o " " \o ToString(l))

TInit == \E i \in Starts :
    /\ InitWith([n |-> Trace[i].n, d |-> Trace[i].d, dtmin |-> Trace[i].dtmin,
                 dtmax |-> Trace[i].dtmax, itermax |-> Trace[i].itermax,
                 asc |-> Trace[i].asc, tol |-> Trace[i].tol], Trace[i].st0)
    /\ l = i + 1 /\ id = Trace[i].id /\ fault = 0

More == l <= Len(Trace) /\ Trace[l].ev # "cfg"

(* The same to rounding.  Distances from the schedule and relative          *)
(* distances from the limits are given in units of the rounding error.      *)
Mag(x) == IF x < 0 THEN -x ELSE x
FineSnapG ==
    [ C01 |-> Ev.early <= 4 + k /\ Ev.late <= 4 + k,
      C02 |-> Ev.late <= 4 + k ]
FineStepG ==
    [ C03 |-> /\ Ev.near[1] <= 4 /\ Ev.near[2] <= 4
              /\ \/ Ev.near[1] >= -4 \/ Ev.near[2] >= -4
                 \/ Mag(Ev.near[3]) <= 8 + 2 * Ev.k ]
TSnap ==
    /\ More /\ Ev.ev = "snap" /\ Ev.kind # "err"
    /\ Report(SnapG(Ev.t, Ev.iter, Ev.kind, Ev.st))
    /\ Report(FineSnapG)
    /\ SnapE(Ev.t, Ev.iter, Ev.kind, Ev.st)
    /\ l' = l + 1 /\ UNCHANGED <<id, fault>>

TErrDump ==
    /\ More /\ Ev.ev = "snap" /\ Ev.kind = "err"
    /\ Report(ErrDumpG(Ev.t, Ev.iter, Ev.kind, Ev.st))
    /\ ErrDumpE(Ev.t, Ev.iter, Ev.kind, Ev.st)
    /\ l' = l + 1 /\ UNCHANGED <<id, fault>>

TNoSnap ==
    /\ More /\ Ev.ev \in {"step", "end"} /\ pc = "out"
    /\ Report(NoSnapG) /\ NoSnapE
    /\ UNCHANGED <<l, id, fault>>

(* Injected faults must fail the step; nothing else but a small width may.  *)
CauseG ==
    [ C05 |-> Ev.ok => Ev.fault \in {"none", "rate", "val"},
      C15 |-> Ev.ok => Ev.fault \notin {"rate", "val"},
      C03 |-> /\ (~Ev.ok /\ Ev.fault = "none" /\ ~Ev.mayfail) => Ev.cfl < cfg.dtmin + Tol
              /\ (Ev.ok => Ev.cfl >= cfg.dtmin - Tol) ]

TStepOk ==
    /\ More /\ Ev.ev = "step" /\ Ev.ok /\ pc # "out"
    /\ Report(CauseG)
    /\ Report(BeginG)
    /\ Report([C02 |-> Ev.sumok])               \* t advanced by exactly the reported width
    /\ IF cfg.asc
       THEN Report([AcceptG(Min2(Ev.dt, cfg.dtmax), Ev.dt) EXCEPT !.C07 = @ /\ Ev.pos])
            /\ Report(AdvanceG(Ev.dt, Ev.t, Ev.pos))
       ELSE Report(StepG(Ev.cfl, Ev.dt, Ev.t, Ev.iter, Ev.pos)) /\ Report(FineStepG)
    /\ StepE(Ev.t, Ev.st)
    /\ l' = l + 1 /\ UNCHANGED <<id, fault>>

TStepFail ==
    /\ More /\ Ev.ev = "step" /\ ~Ev.ok /\ pc # "out"
    /\ Report(CauseG)
    /\ Report(BeginG)
    /\ Report(StepFailG(Ev.t, Ev.iter))
    /\ (Ev.fault = "none" => Report(RefuseG(Ev.cfl, Ev.st)))
    /\ StepFailE(Ev.st)
    /\ fault' = Ev.tok
    /\ l' = l + 1 /\ UNCHANGED id

Same(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : a[i].t = b[i].t /\ a[i].iter = b[i].iter /\ a[i].kind = b[i].kind

EndG ==
    [ C01 |-> /\ ScheduleOf(snaps, Ev.res)
              /\ Ev.res = "ok" => Same(Ev.vec, snaps)
              /\ Ev.res # "panic",
      C02 |-> Ev.res = "ok" => MayEnd /\ LeqT(t, TEnd),
      C04 |-> /\ Ev.res = "ok" => iter < cfg.itermax
              /\ (Ev.res = "err" /\ fault = 0) => (pc = "done" /\ res = "err"),
      C05 |-> /\ Ev.res = "err" => /\ pc = "done" /\ res = "err"
                                   /\ FailureOf(snaps, Ev.res)
                                   /\ Same(Ev.vec, snaps)
                                   /\ Ev.tok = fault
              /\ Ev.res = "ok" => FailureOf(snaps, Ev.res) /\ fault = 0
              /\ Ev.kept
              /\ Ev.res # "panic" ]

TEndEv ==
    /\ More /\ Ev.ev = "end" /\ pc # "out"
    /\ (Ev.res = "ok" => Report(FinishG))
    /\ Report(EndG)
    /\ PrintT("CASE " \o ToString(id))
    /\ pc' = "done" /\ res' = Ev.res
    /\ UNCHANGED <<cfg, t, k, iter, w, snaps, st, id, fault>>
    /\ l' = l + 1

TNext == TSnap \/ TErrDump \/ TNoSnap \/ TStepOk \/ TStepFail \/ TEndEv
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
