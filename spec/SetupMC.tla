-------------------------------- MODULE SetupMC -------------------------------
(* Every configuration that deviates from a good one in one or two settings,  *)
(* each setting at, just beside and beyond its limit.                         *)
EXTENDS Setup, TLC, Json, IOUtils
OkStream(x) == [file |-> TRUE, folder |-> "out", name |-> "data" \o ToString(x), vec |-> TRUE, cols |-> <<"t", "xi_cent", "prim_0">>, clear |-> TRUE]
Term(x) == [file |-> FALSE, folder |-> "", name |-> "", vec |-> FALSE, cols |-> <<"iter", "t", "dt", "dt_kind">>, clear |-> FALSE]
Base(b) == [xi_in |-> IF b = 1 THEN One ELSE Num(-43, 0), xi_out |-> Num(16, 0), gamma |-> Num(11, 0), p |-> Num(12, 0), lim |-> "Monocent",
            flux |-> IF b = 1 THEN "Kt" ELSE "Hll", type |-> IF b = 1 THEN "Kt" ELSE "Hll", iter |-> 2, t0 |-> Zero, t_end |-> One,
            dt_min |-> Num(0, 1), dt_max |-> One, cfl |-> Num(4, 0), rtol |-> Num(1, 0), atol |-> Num(1, 0), fric |-> Num(1, 0),
            streams |-> <<OkStream(1), Term(2), OkStream(3)>>]
Around(b) == {Num(b, -1), Num(b, 0), Num(b, 1)}
PosDev == Around(0) \cup {NaN, Num(-8, 0), Num(40, 0), NegInf}
Stream(x) == LET o == OkStream(x)  t == Term(x)
                 scalar == [o EXCEPT !.vec = FALSE, !.cols = <<"t", "iter">>]
             IN {[o EXCEPT !.clear = FALSE], scalar, [t EXCEPT !.vec = TRUE, !.cols = <<"c_sound", "t">>],
                 [o EXCEPT !.folder = ""], [o EXCEPT !.name = ""], [scalar EXCEPT !.folder = "", !.name = ""], [scalar EXCEPT !.name = ""],
                 [o EXCEPT !.vec = FALSE], [t EXCEPT !.folder = "out", !.clear = TRUE], [t EXCEPT !.name = "x"]}
                \cup {[scalar EXCEPT !.cols = <<c>>] : c \in Vectors}
                \cup {[t EXCEPT !.cols = <<"t", "iter", c>>] : c \in Vectors}
                \cup {[t EXCEPT !.cols = <<c, "dt">>] : c \in Vectors}
Dev(f) == CASE f = "xi_in" -> Around(16) \cup {Zero, NaN, Num(-16, 0), Num(24, 0), Inf, NegInf}
            [] f = "xi_out" -> Around(8) \cup {Zero, NaN, Num(-48, 0), Num(9, 0), Num(8, 3), Inf, NegInf}
            [] f = "gamma" -> Around(8) \cup Around(16) \cup {NaN, Zero, Num(-11, 0), Num(24, 0), Inf, NegInf, Num(13, 0)}
            [] f = "p" -> Around(8) \cup {NaN, Zero, Num(-12, 0), Num(16, 0), NegInf}
            [] f = "lim" -> {"NoLimiter", "MinMod", "Superbee", "VanLeer"}
            [] f = "flux" -> {"Hll", "Kt"}
            [] f = "type" -> {"Hll", "Kt"}
            [] f = "iter" -> {0, 1}
            [] f = "t0" -> Around(0) \cup Around(8) \cup {NaN, Num(-8, 0), Num(16, 0), Inf, NegInf}
            [] f = "t_end" -> Around(0) \cup {NaN, Num(-8, 0), Num(16, 0), NegInf, Inf}
            [] f = "dt_max" -> PosDev \cup {Inf}
            [] OTHER -> PosDev
Fields == {"xi_in", "xi_out", "gamma", "p", "lim", "flux", "type", "iter", "t0", "t_end", "dt_min", "dt_max", "cfl", "rtol", "atol", "fric",
           "s1", "s2", "s3", "none"}
Index == [s1 |-> 1, s2 |-> 2, s3 |-> 3]
Set(c, f) == IF f = "none" THEN {c}
             ELSE IF f \in DOMAIN Index THEN {[c EXCEPT !.streams[Index[f]] = st] : st \in Stream(Index[f])}
             ELSE {[c EXCEPT ![f] = v] : v \in Dev(f)}
Pairs == IOEnv.PAIRS = "1"
Configs == {Base(1), Base(2)}
MCInit == /\ \E c \in Configs, f \in Fields, g \in (IF Pairs THEN Fields ELSE {"none"}) : \E c1 \in Set(c, f) : k \in Set(c1, g)
          /\ fails \in BOOLEAN /\ ph = "config" /\ touched = FALSE /\ calls = 0
MCSpec == MCInit /\ [][SNext]_su
GNext == ph = "config" /\ ph' = "over" /\ UNCHANGED <<k, fails, touched, calls>> /\ PrintT("GEN " \o ToJson([k |-> k, fails |-> fails]))
GSpec == MCInit /\ [][GNext]_su
=============================================================================
