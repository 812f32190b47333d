------------------------------- MODULE Driver -------------------------------
(***************************************************************************)
(* The run loop of a simulation together with its step control: output     *)
(* scheduling, time step widths (CFL limit, maximum width, cap at the next *)
(* output / the end time), adaptive step control (trial, reject, accept),  *)
(* the iteration limit, failures in any phase of a step, the error dump.   *)
(*                                                                         *)
(* Time is an integer number of units since the start of the simulation.   *)
(* cfg.tol is the tolerance (in units) with which observed times are       *)
(* compared: 0 in model checking and in exact replays.                     *)
(*                                                                         *)
(* Every guard is labelled with the properties it belongs to, as a record  *)
(* [property |-> condition].  An action of the model requires all of its   *)
(* guards (All); the trace specification applies the same action's effect  *)
(* to an observed event and reports the labels whose guard is false.       *)
(***************************************************************************)
EXTENDS Integers, Sequences

VARIABLES
    cfg,    \* [n, d, dtmin, dtmax, itermax, asc, tol]: n outputs, d units apart
    pc,     \* "out" | "end" | "trial" | "err" | "done"
    t,      \* current time
    k,      \* number of regular snapshots written = index of the next one
    iter,   \* number of steps begun
    w,      \* width of the current trial (adaptive control only), else 0
    snaps,  \* the snapshots written so far: <<[t, iter, kind, st]>>
    st,     \* identity of the current state (a digest; a counter in the model)
    res     \* "none" | "ok" | "err"

vars == <<cfg, pc, t, k, iter, w, snaps, st, res>>

All(g) == \A p \in DOMAIN g : g[p]
Failed(g) == {p \in DOMAIN g : ~g[p]}

Min2(a, b) == IF a < b THEN a ELSE b
Min3(a, b, c) == Min2(a, Min2(b, c))
Max2(a, b) == IF a > b THEN a ELSE b
Tol == cfg.tol
Quarter(x) == x \div 4 + (IF x % 4 = 0 THEN 0 ELSE 1)   \* x/4 rounded up: widths may be near 2^31
Near(a, b) == a - b <= Tol /\ b - a <= Tol
LeqT(a, b) == a - b <= Tol            \* a <= b, up to the tolerance

TEnd == cfg.n * cfg.d
Due  == k * cfg.d                      \* time of the next scheduled snapshot
Limit == Min2(Due, TEnd)               \* no step may carry the time beyond this

MaySnap  == LeqT(Due - cfg.dtmin, t) /\ k <= cfg.n
MustSnap == t - Tol >= Due - cfg.dtmin
(* The end is reached when less than the minimum width is left.            *)
MayEnd   == LeqT(TEnd - cfg.dtmin, t)
MustEnd  == IF Tol = 0 THEN t >= TEnd ELSE t - Tol > TEnd

InitWith(c, st0) ==
    /\ cfg = c /\ pc = "out" /\ t = 0 /\ k = 0 /\ iter = 0 /\ w = 0
    /\ snaps = <<>> /\ st = st0 /\ res = "none"

-----------------------------------------------------------------------------
(* A regular snapshot: shows the current time, iteration and state.        *)
SnapG(tv, iv, kind, sv) ==
    [ C01 |-> pc # "err" => /\ pc = "out" /\ MaySnap
                            /\ Near(tv, t) /\ iv = iter /\ sv = st
                            /\ (k = 0) = (kind = "init"),
      C05 |-> pc \notin {"err", "done"} /\ kind # "err",
      C02 |-> Near(tv, t) /\ iv = iter ]
SnapE(tv, iv, kind, sv) ==
    /\ snaps' = Append(snaps, [t |-> tv, iter |-> iv, kind |-> kind, st |-> sv])
    /\ k' = k + 1 /\ pc' = "end"
    /\ UNCHANGED <<cfg, t, iter, w, st, res>>
Snapshot(tv, iv, kind, sv) == All(SnapG(tv, iv, kind, sv)) /\ SnapE(tv, iv, kind, sv)

(* Passing the output point without writing.                               *)
NoSnapG == [C01 |-> ~MustSnap]
NoSnapE == pc' = "end" /\ UNCHANGED <<cfg, t, k, iter, w, snaps, st, res>>
NoSnapshot == pc = "out" /\ All(NoSnapG) /\ NoSnapE

(* The run reports success.                                                *)
FinishG ==
    [ C02 |-> MayEnd /\ LeqT(t, TEnd),
      C05 |-> pc # "err",
      C04 |-> iter < Max2(cfg.itermax, 1),
      C01 |-> pc # "err" => /\ Len(snaps) = cfg.n + 1
                            /\ snaps[Len(snaps)].t + cfg.dtmin + Tol >= t
                            /\ snaps[Len(snaps)].iter = iter => snaps[Len(snaps)].st = st ]
FinishE == pc' = "done" /\ res' = "ok" /\ UNCHANGED <<cfg, t, k, iter, w, snaps, st>>
Finish == pc = "end" /\ All(FinishG) /\ FinishE

-----------------------------------------------------------------------------
Width(cfl) == Min3(cfl, cfg.dtmax, Limit - t)
TooSmall(cfl) == cfl < cfg.dtmin

(* Any step: it may only be begun here.                                    *)
BeginG ==
    [ C05 |-> pc # "done" /\ (pc = "err" => iter >= cfg.itermax),
      C04 |-> iter < cfg.itermax,
      C02 |-> pc # "err" => ~MustEnd ]

(* The effect of a successful step of width dt arriving at tv.             *)
AdvanceG(dt, tv, pos) ==
    [ C02 |-> /\ pos                                    \* strictly positive and finite
              /\ LeqT(t + dt, Limit) /\ LeqT(tv, Limit) /\ Near(tv, t + dt) ]
AfterStep(it) == IF it >= cfg.itermax THEN "err" ELSE "out"

(* A complete step without adaptive control.                               *)
StepG(cfl, dt, tv, iv, pos) ==
    [ C02 |-> All(BeginG) => All(AdvanceG(dt, tv, pos)) /\ iv = iter + 1,
      C03 |-> cfl >= cfg.dtmin - Tol /\ Near(dt, Width(cfl)) ]
StepE(tv, sv) ==
    /\ iter' = iter + 1 /\ t' = tv /\ st' = sv
    /\ pc' = AfterStep(iter + 1)
    /\ UNCHANGED <<cfg, k, w, snaps, res>>
StepOk(cfl, dt, tv, sv) ==
    /\ pc = "end" /\ ~cfg.asc /\ All(BeginG)
    /\ All(StepG(cfl, dt, tv, iter + 1, dt > 0))
    /\ StepE(tv, sv)

(* A step that fails, in whatever phase: time does not advance.            *)
StepFailG(tv, iv) == [C02 |-> tv = t, C04 |-> iv = iter + 1]
StepFailE(sv) ==
    /\ iter' = iter + 1 /\ st' = sv /\ pc' = "err" /\ w' = 0
    /\ UNCHANGED <<cfg, t, k, snaps, res>>
StepFail(sv) == pc = "end" /\ All(BeginG) /\ StepFailE(sv)

(* Too small a CFL width is refused and leaves the state as it was.        *)
RefuseG(cfl, sv) == [C03 |-> cfl < cfg.dtmin + Tol => sv = st]
Refuse(cfl) == TooSmall(cfl) /\ StepFail(st)

(* --- adaptive step control --- *)
AscBegin(cfl) ==
    /\ pc = "end" /\ cfg.asc /\ All(BeginG)
    /\ cfl >= cfg.dtmin
    /\ iter' = iter + 1
    /\ w' = Width(cfl)
    /\ pc' = "trial"
    /\ UNCHANGED <<cfg, t, k, snaps, st, res>>

(* A rejected trial of width w1 is followed by a narrower one, or, below    *)
(* the minimum width, by an error.                                         *)
NarrowG(w1, w2) == [C07 |-> w2 < w1 /\ w2 + Tol >= Quarter(w1)]
Reject(w2) ==
    /\ pc = "trial" /\ All(NarrowG(w, w2))
    /\ w' = w2
    /\ IF w2 < cfg.dtmin THEN pc' = "err" ELSE pc' = "trial"
    /\ UNCHANGED <<cfg, t, k, iter, snaps, st, res>>

AcceptG(w1, dt) == [C07 |-> Quarter(dt) <= w1 + Tol /\ dt <= cfg.dtmax + Tol /\ LeqT(t + dt, Limit)]
Accept(dt, tv, sv) ==
    /\ pc = "trial" /\ All(AcceptG(w, dt)) /\ All(AdvanceG(dt, tv, dt > 0))
    /\ w' = 0 /\ t' = tv /\ st' = sv /\ pc' = AfterStep(iter)
    /\ UNCHANGED <<cfg, k, iter, snaps, res>>

TrialFail ==
    /\ pc = "trial" /\ pc' = "err" /\ w' = 0
    /\ UNCHANGED <<cfg, t, k, iter, snaps, st, res>>

(* The error dump: exactly one more snapshot, then the run ends.           *)
ErrDumpG(tv, iv, kind, sv) ==
    [ C05 |-> pc = "err" /\ Near(tv, t) /\ iv = iter /\ kind = "err" /\ sv = st,
      C04 |-> pc \in {"err", "done"} ]
ErrDumpE(tv, iv, kind, sv) ==
    /\ snaps' = Append(snaps, [t |-> tv, iter |-> iv, kind |-> kind, st |-> sv])
    /\ pc' = "done" /\ res' = "err"
    /\ UNCHANGED <<cfg, t, k, iter, w, st>>
ErrDump(tv, iv, kind, sv) == All(ErrDumpG(tv, iv, kind, sv)) /\ ErrDumpE(tv, iv, kind, sv)

-----------------------------------------------------------------------------
(* The listed properties, on the model and on completed traces.            *)
IsErr(s) == s.kind = "err"
(* C01 *)
ScheduleOf(ss, r) ==
    /\ \A j \in 1..Len(ss) : ~IsErr(ss[j]) =>
          /\ ss[j].t <= (j - 1) * cfg.d + Tol
          /\ ss[j].t >= (j - 1) * cfg.d - cfg.dtmin - Tol
    /\ r = "ok" => /\ Len(ss) = cfg.n + 1
                   /\ ss[1].t = 0 /\ ss[1].iter = 0
Schedule == ScheduleOf(snaps, res) /\ k <= cfg.n + 1
(* C02 *)
Bounded == t <= TEnd + Tol /\ t <= Due + Tol /\ (res = "ok" => MayEnd)
Strict == [][t' # t => t' > t]_vars
StepsAdvance == [][(iter' # iter /\ pc' = "out") => t' > t]_vars
(* C03 *)
RefusalLeavesState == [][(pc = "end" /\ pc' = "err" /\ st' # st) => iter' = iter + 1]_vars
(* C04 *)
IterLimit == /\ iter <= Max2(cfg.itermax, 1)
             /\ (iter = cfg.itermax /\ pc = "done") => res = "err"
(* C05 *)
FailureOf(ss, r) ==
    /\ r = "err" => /\ ss # <<>> /\ IsErr(ss[Len(ss)])
                    /\ \A j \in 1..(Len(ss) - 1) : ~IsErr(ss[j])
                    /\ ss[Len(ss)].t = t /\ ss[Len(ss)].iter = iter /\ ss[Len(ss)].st = st
    /\ r # "err" => \A j \in 1..Len(ss) : ~IsErr(ss[j])
Failure == FailureOf(snaps, res)
NoStepAfterFailure == [][pc = "err" => iter' = iter /\ t' = t]_vars
SnapshotsStay == [][SubSeq(snaps', 1, Len(snaps)) = snaps]_vars
(* C07 *)
TrialBounds == pc = "trial" => /\ 0 < w /\ w <= cfg.dtmax /\ t + w <= Limit
RejectShrinks == [][(pc = "trial" /\ pc' = "trial") => w' < w]_vars
NoCreep == [][(pc = "trial" /\ pc' = "trial") => w' >= cfg.dtmin]_vars
NoTrace == [][(pc = "trial" /\ st' # st) => t' > t]_vars

TypeOK ==
    /\ pc \in {"out", "end", "trial", "err", "done"}
    /\ t \in Nat /\ k \in Nat /\ iter \in Nat /\ w \in Nat
    /\ res \in {"none", "ok", "err"}
=============================================================================
