------------------------------ MODULE Dimensions ------------------------------
(***************************************************************************)
(* Every formula of the simulation as an expression over quantities with   *)
(* dimensions, and what it means that no formula knows a unit: sums,       *)
(* comparisons and choices only join quantities of the same dimension, and *)
(* roots have a dimension.  The numbers of a simulation then scale like    *)
(* the dimensions of what they stand for, whatever the units.              *)
(* A dimension is a triple of exponents of density, velocity and length.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
CONSTANT Floor     \* TRUE: the broken variant with a constant floor under a denominator

Bad == <<99, 99, 99>>
One == <<0, 0, 0>>
Dim == [ rho |-> <<1, 0, 0>>, v |-> <<0, 1, 0>>, p |-> <<1, 2, 0>>,
         d |-> <<1, 0, 0>>, m |-> <<1, 1, 0>>, E |-> <<1, 2, 0>>,
         c |-> <<0, 1, 0>>, lam |-> <<0, 1, 0>>,
         x |-> <<0, 0, 1>>, w |-> <<0, 0, 1>>, t |-> <<0, -1, 1>>, dt |-> <<0, -1, 1>>,
         num |-> One ]

Q(n) == [op |-> "q", n |-> n]
N == Q("num")
Bin(o, a, b) == [op |-> o, a |-> a, b |-> b]
Add(a, b) == Bin("+", a, b)          \* also differences, comparisons, smallest and largest
Mul(a, b) == Bin("*", a, b)
Div(a, b) == Bin("/", a, b)
Root(a) == [op |-> "sqrt", a |-> a]

Plus(a, b) == <<a[1] + b[1], a[2] + b[2], a[3] + b[3]>>
Minus(a, b) == <<a[1] - b[1], a[2] - b[2], a[3] - b[3]>>
RECURSIVE D(_)
D(e) ==
    IF e.op = "q" THEN Dim[e.n]
    ELSE IF e.op = "sqrt" THEN
        LET a == D(e.a) IN IF a # Bad /\ \A i \in 1..3 : a[i] % 2 = 0 THEN <<a[1] \div 2, a[2] \div 2, a[3] \div 2>> ELSE Bad
    ELSE LET a == D(e.a) b == D(e.b) IN
        IF a = Bad \/ b = Bad THEN Bad
        ELSE CASE e.op = "+" -> IF a = b THEN a ELSE Bad
               [] e.op = "*" -> Plus(a, b)
               [] e.op = "/" -> Minus(a, b)

-----------------------------------------------------------------------------
rho == Q("rho")  v == Q("v")  p == Q("p")  d == Q("d")  m == Q("m")  E == Q("E")
c == Q("c")  lam == Q("lam")  x == Q("x")  w == Q("w")  t == Q("t")  dt == Q("dt")
FluxDim(i) == CASE i = 1 -> m [] i = 2 -> Add(Mul(m, v), p) [] i = 3 -> Mul(Add(E, p), v)
Cons(i) == CASE i = 1 -> d [] i = 2 -> m [] i = 3 -> E
Prim(i) == CASE i = 1 -> rho [] i = 2 -> v [] i = 3 -> p
Safe(a) == IF Floor THEN Add(a, N) ELSE a
(* slopes from two differences *)
VanLeerF(a) == Div(Mul(N, Mul(a, a)), Add(a, a))
MinModF(a) == Add(a, Mul(N, a))
(* numerical flux between two states *)
Speed == Add(Add(v, c), Add(v, c))
NumFluxF(i) == Div(Add(Add(Mul(Speed, FluxDim(i)), Mul(Speed, FluxDim(i))), Mul(Mul(Speed, Speed), Add(Cons(i), Cons(i)))), Safe(Add(Speed, Speed)))
Rate(i) == Div(NumFluxF(i), w)
Err(i) == Div(Add(Cons(i), Cons(i)), Mul(N, Cons(i)))
(* name, expression, the dimension its value has to have *)
Formulas == <<
    <<"conserved momentum", Mul(rho, v), m>>,
    <<"conserved energy", Add(Div(p, N), Mul(N, Mul(rho, Mul(v, v)))), E>>,
    <<"primitive velocity", Div(m, d), v>>,
    <<"primitive pressure", Mul(N, Add(E, Mul(N, Div(Mul(m, m), d)))), p>>,
    <<"speed of sound", Root(Div(Mul(N, p), rho)), c>>,
    <<"pressure of an isothermal gas", Mul(rho, Mul(c, c)), p>>,
    <<"signal speeds", Add(v, c), lam>>,
    <<"van Leer slope of density", VanLeerF(d), d>>,
    <<"van Leer slope of momentum", VanLeerF(m), m>>,
    <<"van Leer slope of energy", VanLeerF(E), E>>,
    <<"minmod slope of density", MinModF(d), d>>,
    <<"minmod slope of momentum", MinModF(m), m>>,
    <<"minmod slope of energy", MinModF(E), E>>,
    <<"change of density", Mul(dt, Rate(1)), d>>,
    <<"change of momentum", Mul(dt, Rate(2)), m>>,
    <<"change of energy", Mul(dt, Rate(3)), E>>,
    <<"CFL limit", Mul(N, Div(w, Add(lam, lam))), dt>>,
    <<"schedule", Add(t, Mul(N, Add(t, t))), t>>,
    <<"time left", Add(t, Mul(N, dt)), dt>>,
    <<"extrapolation", Add(rho, Add(rho, Mul(N, rho))), rho>>,
    <<"Kepler scaling", Div(v, Root(Div(x, x))), v>>,
    <<"near zero", Mul(N, v), v>>,
    <<"normalised error of density", Err(1), N>>,
    <<"normalised error of momentum", Err(2), N>>,
    <<"normalised error of energy", Err(3), N>>,
    <<"centres", Add(x, Mul(N, w)), x>> >>

VARIABLES f, res
Init == f \in 1..Len(Formulas) /\ res = <<>>
Next == res = <<>> /\ res' = D(Formulas[f][2]) /\ UNCHANGED f
Spec == Init /\ [][Next]_<<f, res>>
Homogeneous == res # <<>> => res = D(Formulas[f][3])

(* the exponent of two by which a quantity changes *)
Shift(n, k) == Dim[n][1] * k.d + Dim[n][2] * k.v + Dim[n][3] * k.a
=============================================================================
