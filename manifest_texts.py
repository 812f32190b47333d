DRV = "TLA+ Driver model checked with TLC; TLC behaviours replayed into the real run loop; recorded real runs validated as traces"
for p in ("C01", "C02", "C03", "C04", "C05"):
    TECH[p] = DRV
    NOTE[p] = ("Exhaustive over the bounded Driver model (all widths, limits, faults at every step); the code is bound by replaying "
               "generated behaviours with a scripted environment and by validating seeded real runs event by event. Trusts the harness's "
               "projection of times to integer units and TLC.")

FVT = "TLA+ FiniteVolume model checked with TLC; recorded evaluations of the real code recomputed and compared by TLC, phase by phase"
for p in ("C08", "C09", "C10", "C11", "C12", "C13", "C14", "C24"):
    TECH[p] = FVT
    NOTE[p] = ("Exhaustive over a small lattice of states for every scheme on the specification; the code is bound by seeded evaluations "
               "compared in fixed point (15 fractional bits; C11-C14 also with 48 fractional bits to 2^-36 of the terms involved, C08-C10 "
               "and C24 at rounding level). Trusts the harness's projection and TLC.")

for p in ("C06", "C07"):
    TECH[p] = ("TLA+ RungeKutta and StepControl models checked with TLC (order conditions, trial loop); TLC's error sequences replayed into the "
               "real step; recorded stages and trials recomputed exactly by TLC")
    NOTE[p] = ("Order conditions exact modulo primes; recovered coefficients to 36 bits; trial loop exhaustive over a small grid of widths and error classes; stage states compared "
               "digit-exact with scripted rates. Trusts the harness's projection and TLC.")
TECH["C15"] = "TLA+ Validation specification; TLC-drawn ends of a step replayed into the real code and real near-vacuum steps, verdicts decided by TLC"
NOTE["C15"] = ("Admissibility decided by exact integer arithmetic for scripted ends and by class for real steps; ties at exactly zero are open. "
               "Trusts the harness's classification of recorded values.")

for p in ("C16", "C17", "C18", "C20"):
    TECH[p] = ("TLA+ Writer model (interleaved streams, folders) checked with TLC; its folder situations replayed into the real code; files, "
               "folder trees and terminal lines of real runs recomputed by TLC")
    NOTE[p] = ("Exhaustive over two concurrent streams of every kind, folder and flag on the specification; the code is bound by replayed and "
               "seeded runs on 1 to 8 threads. Values are compared digit by digit. Trusts the harness's capture of terminal and folder tree.")

for p in ("C19", "C25"):
    TECH[p] = ("TLA+ Setup model (rules, order of effects) checked with TLC; every configuration it draws is set up by the real code; outcome, "
               "folder tree and calls of the initial condition decided by TLC")
    NOTE[p] = ("All single and pairwise deviations from two good configurations around every limit on the specification; all single and a seeded "
               "part of the pairwise ones in the code. Trusts the harness's construction of the configuration and TLC.")

TECH["C28"] = ("TLA+ Presets model (documented settings as functions of the arguments) checked with TLC against the rules of set-up; the configurations "
               "the real code makes, their acceptance and runs decided by TLC")
NOTE["C28"] = ("Acceptance for all combinations of end times, names, flux types and mesh sizes 6..120 on the specification; seeded arguments in the "
               "code. Trusts the harness's reading of the configuration's public fields and TLC.")

TECH["C22"] = "TLA+ Mesh model checked with TLC; meshes built by the real code compared with it face by face by TLC"
NOTE["C22"] = ("Tiling exhaustive over small integer domains on the specification; real meshes on representable domains compared exactly, others "
               "within a few EPSILON of exact arithmetic done by the harness. Trusts that arithmetic and TLC.")
TECH["C23"] = "TLA+ Units model (factors as powers of ten) checked with TLC; its conversion chains replayed into the real code and decided by TLC"
NOTE["C23"] = ("All chains up to a length on the specification; each replayed on seeded values, distances counted in floats by the harness. "
               "Trusts that count and TLC.")

TECH["C21"] = ("TLA+ Repro model (workers, barriers, several simulations) checked with TLC, broken variants refuted; digests of repeated real runs "
               "under many schedules checked against it as one trace by TLC")
NOTE["C21"] = ("All interleavings of two small simulations on the specification; real runs sample schedules through thread counts, pools, "
               "overlap, order, streams and build features. Schedules of the real thread pool are sampled, not enumerated.")

TECH["C26"] = ("TLA+ Dimensions model (every formula as a term, homogeneity checked by TLC, a variant with a constant floor refuted); pairs of real "
               "runs in different units decided by TLC quantity by quantity")
NOTE["C26"] = ("Dimensions exhaustive over the listed formulas; real runs are seeded pairs compared bit by bit up to the power of two. Scales from "
               "2^-100 to 2^100, so formulas that only fail nearer to underflow are not seen. Trusts the harness's comparison and TLC.")
TECH["C27"] = ("TLA+ FiniteVolume model with a displacement invariant checked with TLC; pairs of real runs of a displaced profile decided by TLC cell by cell")
NOTE["C27"] = ("Displacement exhaustive over a small lattice of states on the specification; real runs are seeded pairs on 96 to 270 cells, compared "
               "through digests of every cell. Trusts the digests and TLC.")
