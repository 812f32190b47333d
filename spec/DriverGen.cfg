SPECIFICATION MSpec
INVARIANT Emit
CONSTANTS
  Ns = {1, 2, 3}
  Ds = {2, 3, 5}
  DtMins = {1, 2}
  DtMaxs = {2, 4, 100}
  IterMaxs = {1, 3, 6, 50}
  Cfls = {0, 1, 2, 3, 7}
  Faults = {"cfl", "flux1", "fluxn", "rate", "val"}
  Ascs = {TRUE, FALSE}
  GEN = TRUE
CHECK_DEADLOCK FALSE
