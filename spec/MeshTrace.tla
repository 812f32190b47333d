------------------------------- MODULE MeshTrace -------------------------------
(* Decides recorded meshes.  exact: positions are integers in the units of    *)
(* Mesh; otherwise residuals against the exact positions, in thousandths of   *)
(* EPSILON times the larger edge, computed without rounding by the harness.   *)
EXTENDS Mesh, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, fn
e == Trace[l]
Report(g) == \A p \in {x \in DOMAIN g : ~g[x]} : PrintT("REJECT " \o p \o " " \o ToString(l))
Eps == 1000
Within(v, n) == \A i \in 1..Len(v) : v[i] <= n * Eps /\ -v[i] <= n * Eps
Cells == 1..e.s
Exactly == LET w == e.pos[1]  c == e.pos[2]  t == e.pos[3] IN
    /\ \A i \in Cells : w[i] = WestFace(e.a, e.b, i) /\ c[i] = Centre(e.a, e.b, i) /\ t[i] = EastFace(e.a, e.b, i)
    /\ \A q \in 1..4 : \A i \in Cells : e.wid[q][i] = Width(e.b)
Roundly == /\ \A q \in 1..3 : Len(e.place[q]) = e.s /\ Within(e.place[q], 12)
           /\ Len(e.joint) = e.s - 1 /\ Within(e.joint, 8) /\ Within(e.mid, 8)
           /\ \A q \in 1..4 : \A i \in 1..Len(e.order[q]) : e.order[q][i] = 1
           /\ e.first[1] /\ e.first[2] <= 6 * Eps /\ -e.first[2] <= 6 * Eps
           /\ Within(e.span[1], 8) /\ Within(e.span[2], 8) /\ Within(e.span[3], 8)
Common == /\ e.same /\ e.kind /\ e.ends[1] /\ e.ends[2]
          /\ \A q \in 1..4 : e.metric[q]
          /\ \A q \in 1..7 : e.n[q] = Numbers(e.s)[q]
          /\ \A q \in 8..10 : e.n[q] = e.s
          /\ \A q \in 1..6 : Len(e.inv[q]) = e.s /\ Within(e.inv[q], 2)
          /\ Len(e.area) = e.s /\ Within(e.area, 8)
\* where inverse coordinates do not exist a mesh may be refused (see C19)
MayRefuse == IF e.exact THEN ZeroOn(e.a, e.b, e.s) ELSE e.near
MeshG == [ C22 |-> IF e.res = "ok" THEN Common /\ (IF e.exact THEN Exactly ELSE Roundly)
                   ELSE e.res = "err" /\ MayRefuse ]
Kind == (IF e.exact THEN "exact" ELSE "rounded") \o "-" \o e.res
Check == PrintT("CLASS " \o Kind) /\ Report(MeshG)
Init == l \in 1..Len(Trace) /\ fn = FALSE
Next == ~fn /\ Check /\ fn' = TRUE /\ PrintT("CASE " \o ToString(l)) /\ UNCHANGED l
Spec == Init /\ [][Next]_<<l, fn>>
=============================================================================
