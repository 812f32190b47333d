--------------------------------- MODULE Repro ----------------------------------
(* Several simulations in one process.  Every step of a simulation consists   *)
(* of loops over the cells whose iterations any worker may execute in any     *)
(* order, interleaved with the iterations of other simulations; between two   *)
(* loops of a simulation lies a barrier.  Streams and checks only read.       *)
(* Whatever the schedule, a simulation ends in a state that is a function of  *)
(* its initial state alone.                                                   *)
EXTENDS Integers, FiniteSets
CONSTANTS Sims, Cells, Steps,    \* Cells is 1..n, closed by copies at the ends
          Barrier,               \* FALSE: a loop may begin before the one before has ended (must break Function)
          Private                \* FALSE: the simulations share one array of face values (must break Function)
M == 7
VARIABLES ini, checked, shown,   \* initial states; whether it is checked; whether streams are attached
          ph, todo, step, val, face, flux, seen, stopped
vars == <<ini, checked, shown, ph, todo, step, val, face, flux, seen, stopped>>
Lo == CHOOSE i \in Cells : \A j \in Cells : i <= j
Hi == CHOOSE i \in Cells : \A j \in Cells : i >= j
At(f, i) == IF i < Lo THEN f[Lo] ELSE IF i > Hi THEN f[Hi] ELSE f[i]
Face(v, i) == (At(v, i - 1) + 2 * v[i] + 3 * At(v, i + 1)) % M
Flux(f, i) == (f[i] * At(f, i + 1) + 1) % M
Upd(v, x, i) == (v[i] + At(x, i - 1) + 6 * x[i]) % M
Fails(v) == \E i \in Cells : v[i] = 6
RECURSIVE Result(_, _)
Result(v, n) == IF n = 0 THEN v
                ELSE LET f == [i \in Cells |-> Face(v, i)]
                         x == [i \in Cells |-> Flux(f, i)]
                     IN Result([i \in Cells |-> Upd(v, x, i)], n - 1)
RECURSIVE FailsBy(_, _)
FailsBy(v, n) == n > 0 /\ (Fails(Result(v, n)) \/ FailsBy(v, n - 1))

Zero == [i \in Cells |-> 0]
Starts == {[i \in Cells |-> IF i = Lo THEN a ELSE b] : a \in {1, 2}, b \in {0, 3}}
Init == /\ ini \in [Sims -> Starts] /\ checked \in [Sims -> BOOLEAN] /\ shown \in [Sims -> BOOLEAN]
        /\ ph = [s \in Sims |-> "face"] /\ todo = [s \in Sims |-> Cells] /\ step = [s \in Sims |-> 0]
        /\ val = ini /\ face = [s \in Sims |-> Zero] /\ flux = [s \in Sims |-> Zero]
        /\ seen = [s \in Sims |-> {}] /\ stopped = [s \in Sims |-> FALSE]
Live(s) == step[s] < Steps /\ ~stopped[s]
Own(s) == IF Private THEN s ELSE CHOOSE x \in Sims : \A y \in Sims : x <= y
Rest == <<ini, checked, shown>>
\* one iteration of the current loop
Work(s, i) ==
    /\ Live(s) /\ i \in todo[s]
    /\ todo' = [todo EXCEPT ![s] = @ \ {i}]
    /\ CASE ph[s] = "face" -> face' = [face EXCEPT ![Own(s)][i] = Face(val[s], i)] /\ UNCHANGED <<val, flux>>
         [] ph[s] = "flux" -> flux' = [flux EXCEPT ![s][i] = Flux(face[Own(s)], i)] /\ UNCHANGED <<val, face>>
         [] ph[s] = "update" -> val' = [val EXCEPT ![s][i] = Upd(val[s], flux[s], i)] /\ UNCHANGED <<face, flux>>
    /\ UNCHANGED <<Rest, ph, step, seen, stopped>>
Following(p) == IF p = "face" THEN "flux" ELSE IF p = "flux" THEN "update" ELSE "face"
Turn(s) == /\ Live(s) /\ IF Barrier THEN todo[s] = {} ELSE Cardinality(todo[s]) <= 1 /\ (todo[s] = {} \/ ph[s] = "face")
           /\ ph' = [ph EXCEPT ![s] = Following(@)] /\ todo' = [todo EXCEPT ![s] = Cells]
           /\ IF ph[s] = "update" THEN /\ step' = [step EXCEPT ![s] = @ + 1]
                                       /\ stopped' = [stopped EXCEPT ![s] = checked[s] /\ Fails(val[s])]
                                       /\ seen' = [seen EXCEPT ![s] = IF shown[s] THEN @ \cup {<<step[s] + 1, val[s]>>} ELSE @]
              ELSE UNCHANGED <<step, stopped, seen>>
           /\ UNCHANGED <<Rest, val, face, flux>>
Next == \E s \in Sims : Turn(s) \/ \E i \in Cells : Work(s, i)
Spec == Init /\ [][Next]_vars
Between(s) == ph[s] = "face" /\ todo[s] = Cells
Function == \A s \in Sims : Between(s) => val[s] = Result(ini[s], step[s])
Verdict == \A s \in Sims : Between(s) => (stopped[s] <=> checked[s] /\ FailsBy(ini[s], step[s]))
Written == \A s \in Sims : \A x \in seen[s] : x[2] = Result(ini[s], x[1])
\* a failed check is the only difference switching the checks off can make
SameUnlessFailing == \A s, t \in Sims : (ini[s] = ini[t] /\ step[s] = Steps /\ step[t] = Steps /\ Between(s) /\ Between(t) /\ checked[s] /\ ~stopped[s])
                        => val[s] = val[t]
=============================================================================
