-------------------------------- MODULE SetupRules ---------------------------------
(* The documented rules of a configuration.  A number is [c, b, u]: c = 0     *)
(* stands for b/8 moved up by u floats, c = -1 and 1 for the infinities, c =  *)
(* 2 for NaN.                                                                 *)
EXTENDS Integers, Sequences, FiniteSets

Num(b, u) == [c |-> 0, b |-> b, u |-> u]
NaN == [c |-> 2, b |-> 0, u |-> 0]
Inf == [c |-> 1, b |-> 0, u |-> 0]
NegInf == [c |-> -1, b |-> 0, u |-> 0]
Zero == Num(0, 0)
One == Num(8, 0)
\* comparisons with NaN are false
Lt(x, y) == /\ x.c # 2 /\ y.c # 2
            /\ \/ x.c < y.c
               \/ x.c = 0 /\ y.c = 0 /\ (x.b < y.b \/ (x.b = y.b /\ x.u < y.u))
Le(x, y) == Lt(x, y) \/ (x.c = y.c /\ x.c # 2 /\ (x.c = 0 => x.b = y.b /\ x.u = y.u))
Positive(x) == Lt(Zero, x)

Vectors == {"xi_west", "xi_cent", "xi_east", "prim_0", "prim_1", "cons_0", "cons_1", "c_sound"}
DomainRule(k) == Lt(k.xi_in, k.xi_out)
GammaRule(k) == Lt(One, k.gamma) /\ Lt(k.gamma, Num(16, 0))
LimiterRule(k) == (k.flux = "Kt" /\ k.lim = "Monocent") => Lt(One, k.p)
StepRule(k) == k.iter > 0 /\ Positive(k.dt_min) /\ Positive(k.dt_max) /\ Positive(k.cfl)
TimeRule(k) == Le(Zero, k.t0) /\ Lt(k.t0, k.t_end)
ToleranceRule(k) == Positive(k.rtol) /\ Positive(k.atol) /\ Positive(k.fric)
StreamRule(st) == /\ st.file => st.folder # "" /\ st.name # ""
                  /\ ~st.vec => \A c \in 1..Len(st.cols) : st.cols[c] \notin Vectors
StreamsRule(k) == \A x \in 1..Len(k.streams) : StreamRule(k.streams[x])
FluxRule(k) == k.flux = k.type
Valid(k) == /\ DomainRule(k) /\ GammaRule(k) /\ LimiterRule(k) /\ StepRule(k) /\ TimeRule(k) /\ ToleranceRule(k)
            /\ StreamsRule(k) /\ FluxRule(k)
\* outside of what is decided here: other infinite settings, domains of a few floats' width
Plain(x) == x.c # 1 /\ x.c # -1
Decided(k) == /\ \A x \in {k.xi_in, k.xi_out, k.gamma, k.p, k.t0, k.t_end, k.dt_min, k.dt_max, k.cfl, k.rtol, k.atol, k.fric} : Plain(x)
              /\ k.xi_in.c # 0 \/ k.xi_out.c # 0 \/ k.xi_in.b # k.xi_out.b
\* a face or centre of the mesh (ghost cells included) lies at coordinate zero
AtZero(k, s) == /\ DomainRule(k)
                /\ LET n == s - 4  w == k.xi_out.b - k.xi_in.b
                   IN \E q \in -4 .. 2 * n + 4 : 2 * n * k.xi_in.b + q * w = 0
=============================================================================
