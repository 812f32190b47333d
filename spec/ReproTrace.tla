------------------------------- MODULE ReproTrace -------------------------------
(* Decides recorded repetitions of simulations: the digest of all states,     *)
(* times and widths (key s..) and of the files (key f..) is a function of the *)
(* configuration and the initial state.                                       *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, known
e == Trace[l]
Report(g) == \A p \in {x \in DOMAIN g : ~g[x]} : PrintT("REJECT " \o p \o " " \o ToString(l))
Key(k, v) == k \o (IF v THEN "+" ELSE "-")
Same(x) == e.h = x.h /\ e.res = x.res /\ e.steps = x.steps
\* against its own kind, and, when no check failed, against a run with checks
Own == Key(e.key, e.val)
Other == Key(e.key, TRUE)
Agrees == Own \in DOMAIN known => Same(known[Own])
Unchecked == (~e.val /\ Other \in DOMAIN known) => (known[Other].res = "ok" => Same(known[Other]))
\* a terminated simulation: returned, with an error or not
ReproG == [ C21 |-> Agrees /\ Unchecked /\ e.res # "panic" ]
Kind == IF Own \notin DOMAIN known THEN (IF e.val THEN "first" ELSE IF Other \in DOMAIN known THEN "unchecked-" \o known[Other].res ELSE "unchecked") ELSE "again-" \o e.res
Init == l = 1 /\ known = <<>>
Next == /\ l <= Len(Trace)
        /\ Report(ReproG) /\ PrintT("CLASS " \o Kind) /\ PrintT("CASE " \o ToString(l))
        /\ known' = IF Own \in DOMAIN known THEN known ELSE (Own :> [h |-> e.h, res |-> e.res, steps |-> e.steps]) @@ known
        /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, known>>
=============================================================================
