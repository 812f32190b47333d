------------------------------ MODULE FVTrace ------------------------------
(* Checks recorded evaluations of the real right-hand side ("fv"), of the  *)
(* real reconstruction ("lim") and of the real boundary conditions ("bc")  *)
(* against FiniteVolume.  One case per line; an evaluation goes through    *)
(* the phases of the pipeline, each phase adopting what was observed.      *)
EXTENDS FiniteVolume, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, pc, fn
vars == <<l, pc, fn>>
e == Trace[l]
Report(g) == \A p \in Failed(g) : PrintT("REJECT " \o p \o " " \o ToString(l))

S == Len(e.prim[1])
NJ == IF e.phys = ADIA THEN 3 ELSE 2
Cells == 1..S
In == 3..S-2
Ghosts == {1, 2, S-1, S}
P3(P, i) == IF e.phys = ADIA THEN P[3][i] ELSE 0
CellOk(P, U, i) == ConsOk(e.phys, e.gam, P[1][i], P[2][i], P3(P, i), U[1][i], U[2][i], P3(U, i))
Adm(P, i) == /\ Fin(P[1][i]) /\ Fin(P[2][i]) /\ P[1][i] > 0
             /\ (e.phys = ADIA => P[3][i] > 0 /\ Fin(P[3][i]))
AllAdm == \A i \in Cells : Adm(e.prim, i) /\ Adm(e.cons, i)
FacesAdm == (e.ev = "fv" /\ e.flux = "kt") => \A i \in 2..S-1 :
    /\ Adm(e.pw, i) /\ Adm(e.pe, i) /\ Adm(e.fw, i) /\ Adm(e.fe, i)

(* --- primitive variables of the interior, boundary conditions ---         *)
Near(west, g) == IF west THEN 3 - g ELSE S - 2 + g         \* ghost cell g
GhostOk(west, j, g) ==
    LET m == IF west THEN e.bcw[j] ELSE e.bce[j]
        i == Near(west, g)
        a == e.prim[j][IF west THEN 3 ELSE S - 2]
        b == e.prim[j][IF west THEN 4 ELSE S - 3]
        k == IF west THEN i + 1 ELSE i - 1
    IN IF m = "none"
       THEN CASE j = 1 -> e.prim[1][i] = e.cons0[1][i]
              [] j = 2 -> Close(FMul(e.prim[2][i], e.cons0[1][i]), e.cons0[2][i], 8 + Abs(e.cons0[1][i]) \div 16384)
              [] j = 3 -> LET v0 == FDiv(e.cons0[2][i], e.cons0[1][i])
                              x == FDiv(e.prim[3][i], e.gam - ONE) + FMul(e.cons0[2][i], v0) \div 2
                          IN Close(x, e.cons0[3][i], 64 + Abs(e.cons0[3][i]) \div 2048 + Abs(e.cons0[2][i]) \div 4096)
       ELSE BcOk(m, west, e.prim[j][i], e.gz[j][IF west THEN i ELSE i - S + 4], g, a, b, e.prim[j][k], e.xc[i], e.xc[k])
VarsG ==
    [ C14 |-> /\ \A i \in In : CellOk(e.prim, e.cons0, i)
              /\ \A i \in Cells : CellOk(e.prim, e.cons, i)
              /\ \A i \in Cells : Adm(e.prim, i) =>
                    /\ (IF e.phys = ADIA THEN SoundOk(e.phys, e.gam, e.prim[1][i], P3(e.prim, i), e.c[i])
                                         ELSE e.c[i] = e.c0[i])
                    /\ Close(e.eig[1][i], e.prim[2][i] - e.c[i], 2)
                    /\ Close(e.eig[NJ][i], e.prim[2][i] + e.c[i], 2)
                    /\ (NJ = 3 => e.eig[2][i] = e.prim[2][i]),
      C13 |-> /\ \A j \in 1..NJ, g \in 1..2 : GhostOk(TRUE, j, g) /\ GhostOk(FALSE, j, g)
              /\ \A i \in In : CellOk(e.prim, e.cons0, i)
              /\ \A i \in Ghosts : /\ CellOk(e.prim, e.cons, i)
                                   /\ Adm(e.prim, i) => Close(e.eig[1][i], e.prim[2][i] - e.c[i], 2),
      C15 |-> (AllAdm /\ FacesAdm) => e.ok ]

(* --- reconstruction ---                                                   *)
SlopeTol(a, b) == 8 + (Abs(a) + Abs(b)) \div 8192
FaceOk(lim, th, u, um, up, w, x) ==        \* w, x: west and east face value
    LET a == u - um  b == up - u  s == Slope(lim, th, a, b)
    IN  /\ Close(2 * (x - u), s, SlopeTol(a, b))
        /\ Close(2 * (u - w), s, SlopeTol(a, b))
Bounded(lim, th, u, um, up, w, x) ==
    (lim # "NoLimiter" /\ th <= 2 * ONE) =>
        /\ Min(u, um) - 1 <= w /\ w <= Max(u, um) + 1
        /\ Min(u, up) - 1 <= x /\ x <= Max(u, up) + 1
        /\ (Sgn(u - um) * Sgn(up - u) <= 0 /\ Abs(u - um) # 1 /\ Abs(up - u) # 1) => Close(w, u, 1) /\ Close(x, u, 1)
FacesG ==
    [ C12 |-> \A j \in 1..NJ, i \in 2..S-1 :
          LET u == e.cons[j][i] um == e.cons[j][i-1] up == e.cons[j][i+1]
          IN (Fin(u) /\ Fin(um) /\ Fin(up)) =>
                /\ FaceOk(e.lim, e.theta, u, um, up, e.fw[j][i], e.fe[j][i])
                /\ Bounded(e.lim, e.theta, u, um, up, e.fw[j][i], e.fe[j][i]),
      C14 |-> \A i \in 2..S-1 :
          /\ Adm(e.pw, i) => CellOk(e.pw, e.fw, i) /\ (IF e.phys = ADIA THEN SoundOk(e.phys, e.gam, e.pw[1][i], P3(e.pw, i), e.cw[i]) ELSE e.cw[i] = e.c0[i])
          /\ Adm(e.pe, i) => CellOk(e.pe, e.fe, i) /\ (IF e.phys = ADIA THEN SoundOk(e.phys, e.gam, e.pe[1][i], P3(e.pe, i), e.ce[i]) ELSE e.ce[i] = e.c0[i]) ]

(* --- fluxes and rates ---                                                 *)
Kt == e.flux = "kt"
LP == IF Kt THEN e.pe ELSE e.prim
LU == IF Kt THEN e.fe ELSE e.cons
LC == IF Kt THEN e.ce ELSE e.c
RP == IF Kt THEN e.pw ELSE e.prim
RU == IF Kt THEN e.fw ELSE e.cons
RC == IF Kt THEN e.cw ELSE e.c
Fluxes == [j \in 1..NJ |-> [i \in 2..S-2 |-> FaceFlux(e.phys, LP, LU, LC, RP, RU, RC, j, i)]]
(* size of the terms that make up the fluxes of variable j                  *)
Scale(j) ==
    LET a == CHOOSE m \in {Abs(e.prim[2][i]) + e.c[i] : i \in Cells} : \A i \in Cells : Abs(e.prim[2][i]) + e.c[i] <= m
        t == {Abs(Flux(e.phys, e.prim, e.cons, e.c, j, i)) + FMul(a, Abs(e.cons[j][i])) : i \in Cells}
    IN CHOOSE m \in t : \A x \in t : x <= m
RatesG ==
    LET tol == [j \in 1..NJ |-> 96 + Scale(j) \div 2048]
    IN [ C11 |-> \A j \in 1..NJ, i \in In : Close(e.rate[j][i], fn[j][i] - fn[j][i-1], tol[j]),
         C08 |-> \A j \in 1..NJ : /\ \A i \in In : Fin(e.rate[j][i])
                                  /\ Close(SumSeq(e.rate[j], 3, S-2), fn[j][S-2] - fn[j][2], tol[j]),
         C24 |-> \A j \in 1..NJ, i \in Ghosts : e.rate[j][i] = 0 ]

Init == \E i \in 1..Len(Trace) : l = i /\ pc = Trace[i].ev /\ fn = <<>>
Done(k) == PrintT("CASE " \o ToString(e.id)) /\ pc' = "done" /\ l' = l /\ fn' = k
TVars == pc = "fv" /\ Report(VarsG) /\ pc' = "faces" /\ UNCHANGED <<l, fn>>
TFaces == pc = "faces" /\ (Kt => Report(FacesG))
    /\ IF e.ok /\ AllAdm /\ FacesAdm THEN pc' = "flux" /\ fn' = Fluxes /\ l' = l ELSE Done(<<>>)
TRates == pc = "flux" /\ Report(RatesG) /\ Done(fn)
(* --- reconstruction of one variable, magnified ---                        *)
LimG == [ C12 |-> \A i \in 2..Len(e.u)-1 :
    /\ FaceOk(e.lim, e.theta, e.u[i], e.u[i-1], e.u[i+1], e.w[i], e.x[i])
    /\ Bounded(e.lim, e.theta, e.u[i], e.u[i-1], e.u[i+1], e.w[i], e.x[i])
    /\ (e.linear /\ e.lim # "Superbee") => /\ Close(2 * e.w[i], e.u[i] + e.u[i-1], 4)
                                           /\ Close(2 * e.x[i], e.u[i] + e.u[i+1], 4) ]
TLim == pc = "lim" /\ Report(LimG) /\ Done(<<>>)
(* --- one application of one boundary condition ---                        *)
BcG == [ C13 |->
    LET n == Len(e.prim[1])
        west == e.side = "west"
        own == IF west THEN {1, 2} ELSE {n-1, n}
        at(g) == IF west THEN 3 - g ELSE n - 2 + g
        toward(i) == IF west THEN i + 1 ELSE i - 1
    IN /\ \A k \in 1..Len(e.changed) :        \* <<array, variable, cell>>
            /\ e.changed[k][1] = "prim" /\ e.changed[k][3] \in own
            /\ e.modes[e.changed[k][2]] # "none"
       /\ \A j \in 1..Len(e.modes) : e.modes[j] # "none" => \A g \in 1..2 :
            BcOk(e.modes[j], west, e.prim[j][at(g)], e.gz[j][g], g,
                 e.prim[j][IF west THEN 3 ELSE n - 2], e.prim[j][IF west THEN 4 ELSE n - 3],
                 e.prim[j][toward(at(g))], e.xc[at(g)], e.xc[toward(at(g))]) ]
TBc == pc = "bc" /\ Report(BcG) /\ Done(<<>>)

(* --- a state of a run: after initialisation or after a successful step --- *)
MaxOf(X) == CHOOSE m \in X : \A x \in X : x <= m
Speed(i) == Abs(e.prim[2][i]) + e.c[i]
(* e.cflr: CFL width / (CFL factor * cell width), so that it times the fastest signal is one *)
CflOk(X) == LET f == MaxOf({Speed(i) : i \in X})
            IN Close(FMul(e.cflr, f), ONE, 16 + (f + e.cflr) \div 8192)
StG == LET g == VarsG IN
    [ C13 |-> g.C13, C14 |-> g.C14,
      C03 |-> CflOk(Cells) \/ CflOk(In),
      C25 |-> e.wh = "init" => /\ e.calls = 1 /\ g.C13 /\ g.C14
                              /\ \A j \in 1..NJ, i \in In : e.prim[j][i] = e.prim0[j][i] ]
TState == pc = "st" /\ Report(IF e.wh = "noinit" THEN [C25 |-> FALSE] ELSE StG) /\ Done(<<>>)

(* --- runs of special problems; deviations are in units of the rounding error --- *)
(* a uniform flow: every step succeeds, nothing changes                      *)
UniG == [ C09 |-> /\ Len(e.dev) = e.n + 1 /\ e.limit
                  /\ \A k \in 1..Len(e.oks) : e.oks[k]
                  /\ \A k \in 1..Len(e.dev) : e.dev[k] <= 32 + 16 * k ]
TUni == pc = "uni" /\ Report(UniG) /\ Done(<<>>)
(* a problem and its mirror image: compared for as long as one of the two    *)
(* only passes through admissible states                                     *)
MirTol == IF e.asc THEN 1000000000 ELSE 2000000
Adm2(k) == (k <= Len(e.adma) /\ e.adma[k]) \/ (k <= Len(e.admb) /\ e.admb[k])
MirG == [ C10 |-> /\ e.inits
    /\ \A k \in 1..Max(Len(e.oka), Len(e.okb)) : (\A m \in 1..k : Adm2(m)) =>
          /\ k <= Len(e.oka) /\ k <= Len(e.okb) /\ e.oka[k] = e.okb[k]
          /\ k <= Len(e.dv) => e.dv[k] <= MirTol /\ e.dt[k] <= MirTol ]
TMir == pc = "mir" /\ Report(MirG) /\ Done(<<>>)
(* a perturbation of a uniform flow: while it cannot have reached the ends   *)
(* of the domain the totals stay what they were                              *)
Reach(f) == IF f = "kt" THEN 2 ELSE 1
TotG == [ C08 |-> \A k \in 1..Len(e.res) :
    LET w == Reach(e.flux) * e.stages * k
    IN (e.lo - w >= 5 /\ e.hi + w <= e.n - 4) => e.res[k] <= 12 + 6 * k ]
TTot == pc = "tot" /\ Report(TotG) /\ Done(<<>>)
(* two evaluations that differ in the cells e.cells                          *)
Derived(K, m, inner, own) ==        \* ghost cells that follow from changed interior cells
    IF K \cap inner # {} THEN own ELSE {}
(* a ghost cell's content counts only where some variable is not configured  *)
Free(m) == \E j \in 1..Len(m) : m[j] = "none"
PairG ==
    LET n == e.n
        K == {e.cells[i] : i \in 1..Len(e.cells)}
        Kw == Derived(K, e.bcw, {3, 4}, {1, 2})  Ke == Derived(K, e.bce, {n-3, n-2}, {n-1, n})
        Eff == (K \cap 3..n-2) \cup Kw \cup Ke
                 \cup (IF Free(e.bcw) THEN K \cap {1, 2} ELSE {}) \cup (IF Free(e.bce) THEN K \cap {n-1, n} ELSE {})
        Touched == {i \in 3..n-2 : \E k \in Eff : Abs(i - k) <= Reach(e.flux)}
    IN [ C24 |-> /\ e.again /\ e.reused /\ (e.adm => e.near <= 256)
                 /\ (Eff = {} => e.oka = e.okb)
                 /\ Len(e.ghosts) = 0
                 /\ \A i \in 1..Len(e.changed) : e.changed[i] \in Touched,
         C08 |-> (e.oka /\ e.okb /\ K \cap ((1..4) \cup (n-3..n)) = {}) => \A j \in 1..Len(e.resid) : e.resid[j] <= 4 ]
TPair == pc = "pair" /\ Report(PairG) /\ Done(<<>>)

Next == TState \/ TUni \/ TMir \/ TTot \/ TPair \/ TVars \/ TFaces \/ TRates \/ TLim \/ TBc
Spec == Init /\ [][Next]_vars
=============================================================================
