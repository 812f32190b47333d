--------------------------------- MODULE Units ---------------------------------
(* Conversions between unit systems, as powers of ten.  A quantity is a       *)
(* length, a mass or a time; the unit of system m is 10^Unit[m][q] SI units.  *)
EXTENDS Integers, Sequences
Systems == {"SI", "CGS"}
Quantities == {"length", "mass", "time"}
Unit(m, q) == IF m = "SI" THEN 0 ELSE CASE q = "length" -> -2 [] q = "mass" -> -3 [] q = "time" -> 0
\* converting a number of units of one system to another multiplies it by 10^Shift
Shift(from, to, q) == Unit(from, q) - Unit(to, q)
=============================================================================
