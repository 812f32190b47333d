SPECIFICATION MSpec
INVARIANT Emit
CONSTANTS
  Ns = {1, 2, 3, 7}
  Ds = {3, 4, 9}
  DtMins = {1, 2}
  DtMaxs = {3, 100}
  IterMaxs = {3, 12, 50}
  Cfls = {1, 2, 3, 5, 11}
  Faults = {}
  Ascs = {FALSE}
  GEN = TRUE
CHECK_DEADLOCK FALSE
