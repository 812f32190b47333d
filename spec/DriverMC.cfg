SPECIFICATION MSpec
CONSTANTS
  Ns = {1, 2, 3}
  Ds = {2, 3, 5}
  DtMins = {1, 2}
  DtMaxs = {2, 4, 100}
  IterMaxs = {1, 3, 6, 50}
  Cfls = {0, 1, 2, 3, 7}
  Faults = {"cfl", "flux1", "fluxn", "rate", "val"}
  Ascs = {TRUE, FALSE}
  GEN = FALSE
INVARIANTS TypeOK Schedule Bounded IterLimit Failure TrialBounds
PROPERTIES Strict StepsAdvance NoStepAfterFailure SnapshotsStay RejectShrinks NoCreep NoTrace Terminates
CHECK_DEADLOCK FALSE
