-------------------------------- MODULE HpTrace --------------------------------
(***************************************************************************)
(* The identities of FiniteVolume again, on recorded evaluations of the    *)
(* real code that carry 48 fractional bits (module Big), around one cell   *)
(* per case.  Quotients and roots are multiplied out.  An error of 2^-36   *)
(* of the terms involved is rejected: what hides behind the coarse fixed   *)
(* point of FVTrace - constants with a few digits, single precision - is   *)
(* seen here.                                                              *)
(***************************************************************************)
EXTENDS Big, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, pc
vars == <<l, pc>>
e == Trace[l]
Report(g) == \A p \in {p \in DOMAIN g : ~g[p]} : PrintT("REJECT " \o p \o " " \o ToString(l))

B1 == BInt(1)
Known(x) == Len(x) = ND
Positive(x) == Known(x) /\ BSgn(x) > 0
Adia == e.phys = "adia"
NJ == IF Adia THEN 3 ELSE 2
All(A, k) == \A j \in 1..NJ : Known(A[j][k])
(* an admissible place: primitive P, conserved U, sound C, at position k    *)
Adm(P, U, C, k) == /\ All(P, k) /\ All(U, k) /\ Positive(P[1][k]) /\ Positive(C[k])
                   /\ (Adia => Positive(P[3][k]))
(* --- relations between the variables of one place ---                     *)
PlaceOk(P, U, C, k) ==
    LET rho == P[1][k] v == P[2][k] m == U[2][k] IN
    /\ BClose(U[1][k], rho, B0)
    /\ BClose(m, BMul(rho, v), BAbs(m))
    /\ Adia => LET g1 == BSub(e.gam, B1) p == P[3][k]
                   kin == BMul(g1, BHalve(BMul(m, v)))
                   en == BMul(g1, U[3][k])
                   s2 == BMul(BSq(C[k]), rho)
               IN /\ BClose(en, BAdd(p, kin), BAbs(en))
                  \* the density is known to 2^-49 only
                  /\ BClose(s2, BMul(e.gam, p), BAdd(s2, BMul(BSq(C[k]), BTiny(1))))
EigOk(k) ==
    LET v == e.p[2][k] c == e.c[k] size == BAdd(BAbs(v), c) IN
    /\ Known(e.eig[1][k]) /\ BClose(e.eig[1][k], BSub(v, c), size)
    /\ Known(e.eig[NJ][k]) /\ BClose(e.eig[NJ][k], BAdd(v, c), size)
    /\ (NJ = 3 => e.eig[2][k] = v)
Places == /\ \A k \in 1..5 : Adm(e.p, e.u, e.c, k) => PlaceOk(e.p, e.u, e.c, k) /\ EigOk(k)
          /\ e.flux = "kt" => \A k \in 1..3 :
                /\ Adm(e.pw, e.uw, e.cw, k) => PlaceOk(e.pw, e.uw, e.cw, k)
                /\ Adm(e.pe, e.ue, e.ce, k) => PlaceOk(e.pe, e.ue, e.ce, k)
(* --- reconstruction: d is half the slope times the width ---              *)
Half(a, b, d) ==
    LET same == BSgn(a) * BSgn(b) > 0
        lo == BMin(BAbs(a), BAbs(b)) hi == BMax(BAbs(a), BAbs(b))
        sgn(x) == IF BNegative(a) THEN BNeg(x) ELSE x
        size == BAdd(BAbs(e.u[1][3]), BAdd(BAbs(a), BAbs(b)))
        is(s) == BClose(BTwice(d), s, size)
    IN CASE e.lim = "NoLimiter" -> is(BHalve(BAdd(a, b)))
         [] e.lim = "MinMod" -> is(IF same THEN sgn(lo) ELSE B0)
         [] e.lim = "Superbee" -> is(IF same THEN sgn(BMin(lo, BHalve(hi))) ELSE B0)
         [] e.lim = "Monocent" -> is(IF same THEN sgn(BMin(BMul(e.theta, lo), BHalve(BAdd(lo, hi)))) ELSE B0)
         [] e.lim = "VanLeer" -> IF same THEN BClose(BMul(d, BAdd(a, b)), BMul(a, b), BAdd(BMul(lo, hi), BMul(BAdd(lo, hi), BAbs(e.u[1][3]))))
                                         ELSE is(B0)
FacesOk == \A j \in 1..NJ, k \in 1..3 :
    LET um == e.u[j][k] u == e.u[j][k + 1] up == e.u[j][k + 2] w == e.uw[j][k] x == e.ue[j][k] IN
    (Known(um) /\ Known(u) /\ Known(up)) =>
        /\ Known(w) /\ Known(x)
        /\ Half(BSub(u, um), BSub(up, u), BSub(x, u)) /\ Half(BSub(u, um), BSub(up, u), BSub(u, w))
(* --- fluxes: the place on the left (west) of a face and that on its right *)
L(k) == IF e.flux = "kt" THEN [p |-> [j \in 1..NJ |-> e.pe[j][k]], u |-> [j \in 1..NJ |-> e.ue[j][k]], c |-> e.ce[k]]
        ELSE [p |-> [j \in 1..NJ |-> e.p[j][k + 1]], u |-> [j \in 1..NJ |-> e.u[j][k + 1]], c |-> e.c[k + 1]]
R(k) == IF e.flux = "kt" THEN [p |-> [j \in 1..NJ |-> e.pw[j][k]], u |-> [j \in 1..NJ |-> e.uw[j][k]], c |-> e.cw[k]]
        ELSE [p |-> [j \in 1..NJ |-> e.p[j][k + 1]], u |-> [j \in 1..NJ |-> e.u[j][k + 1]], c |-> e.c[k + 1]]
PhysFlux(q, j) ==
    CASE j = 1 -> q.u[2]
      [] j = 2 -> BAdd(BMul(q.u[2], q.p[2]), IF Adia THEN q.p[3] ELSE BMul(BSq(q.c), q.p[1]))
      [] j = 3 -> BMul(BAdd(q.u[3], q.p[3]), q.p[2])
(* numerator and denominator of the flux through the face between k and k+1, and the size of its terms *)
Face(k) ==
    LET a == L(k) b == R(k + 1)
        sl == BMin(B0, BMin(BSub(a.p[2], a.c), BSub(b.p[2], b.c)))
        sr == BMax(B0, BMax(BAdd(a.p[2], a.c), BAdd(b.p[2], b.c)))
        fa == [j \in 1..NJ |-> PhysFlux(a, j)] fb == [j \in 1..NJ |-> PhysFlux(b, j)]
    IN [d |-> BSub(sr, sl),
        n |-> [j \in 1..NJ |-> BAdd(BSub(BMul(sr, fa[j]), BMul(sl, fb[j])), BMul(BMul(sr, sl), BSub(b.u[j], a.u[j])))],
        s |-> [j \in 1..NJ |-> BAdd(BAdd(BMul(sr, BAbs(fa[j])), BMul(BAbs(sl), BAbs(fb[j]))),
                                    BMul(BMul(sr, BAbs(sl)), BAdd(BAbs(b.u[j]), BAbs(a.u[j]))))]]
RatesOk ==
    LET w == Face(1) x == Face(2) d == BMul(w.d, x.d) IN
    \A j \in 1..NJ : /\ Known(e.rate[j])
                     /\ BClose(BMul(e.rate[j], d), BSub(BMul(x.n[j], w.d), BMul(w.n[j], x.d)),
                               BAdd(BMul(x.s[j], w.d), BMul(w.s[j], x.d)))
Small(x) == BLeq(BAbs(x), BInt(24))
SmallPlace(q) == \A j \in 1..NJ : Small(q.p[j]) /\ BLeq(BAbs(q.u[j]), BInt(400)) /\ Small(q.c)
CanRate == /\ e.rates
           /\ IF e.flux = "kt" THEN /\ \A k \in 1..3 : Adm(e.pw, e.uw, e.cw, k) /\ Adm(e.pe, e.ue, e.ce, k)
                                    /\ \A k \in 1..3 : SmallPlace(L(k)) /\ SmallPlace(R(k))
              ELSE /\ \A k \in 2..4 : Adm(e.p, e.u, e.c, k)
                   /\ \A k \in 1..3 : SmallPlace(L(k))
(* --- ghost cells ---                                                      *)
GhostOk(h) ==
    LET g == h.g
        into == IF h.west THEN BSgn(h.a) > 0 ELSE BSgn(h.a) < 0
        out == IF h.west THEN BSgn(h.a) < 0 ELSE BSgn(h.a) > 0
        copy == h.v = h.a
        reflect == h.v = BNeg(IF g = 1 THEN h.a ELSE h.b)
        extra == BClose(h.v, BSub(BMul(BInt(g + 1), h.a), BMul(BInt(g), h.b)), BAdd(BAbs(h.a), BAbs(h.b)))
        kepler == /\ BSgn(h.v) * BSgn(h.n) >= 0
                  /\ LET x == BMul(BSq(h.v), h.x) IN BClose(x, BMul(BSq(h.n), h.xn), x)
    IN (Known(h.v) /\ Known(h.a) /\ Known(h.b) /\ Known(h.n)) =>
       CASE h.m = "NoGradients" -> copy
         [] h.m = "Extrapolate" -> extra
         [] h.m = "NearZero" -> Known(h.z) /\ BClose(h.z, h.a, BAbs(h.a))
         [] h.m = "Reflecting" -> reflect
         [] h.m \in {"ExtrapolateDensityKepler", "ExtrapolateEtaVelocityKepler"} -> kepler
         [] h.m = "OutflowNoGradients" -> (~out /\ reflect) \/ (~into /\ copy)
         [] h.m = "OutFlowExtrapolate" -> (~out /\ reflect) \/ (~into /\ extra)

Guards == [ C14 |-> Places,
            C12 |-> e.flux = "kt" => FacesOk,
            C11 |-> CanRate => RatesOk,
            C13 |-> \A k \in 1..Len(e.gh) : GhostOk(e.gh[k]) ]
THp == /\ pc = "hp" /\ Report(Guards)
       /\ PrintT("CASE " \o ToString(e.id))
       /\ PrintT("CLASS hp-" \o e.flux \o (IF CanRate THEN "" ELSE "-norate"))
       /\ pc' = "done" /\ l' = l
(* --- the width allowed by the CFL condition ---                           *)
RECURSIVE Fastest(_, _, _)
Fastest(k, n, m) == IF k > n THEN m ELSE Fastest(k + 1, n, BMax(m, BAdd(BAbs(e.v[k]), e.c[k])))
CflOk(lo, hi) == BClose(BMul(e.cfl, Fastest(lo, hi, B0)), B1, B1)
AllKnown == Known(e.cfl) /\ \A k \in 1..Len(e.v) : Known(e.v[k]) /\ Known(e.c[k])
CflG == [ C03 |-> AllKnown => (CflOk(1, Len(e.v)) \/ CflOk(3, Len(e.v) - 2)) ]
TCfl == /\ pc = "hc" /\ Report(CflG)
        /\ PrintT("CASE " \o ToString(e.id)) /\ PrintT("CLASS hc")
        /\ pc' = "done" /\ l' = l
Init == \E i \in 1..Len(Trace) : l = i /\ pc = Trace[i].ev
Next == THp \/ TCfl
Spec == Init /\ [][Next]_vars
=============================================================================
