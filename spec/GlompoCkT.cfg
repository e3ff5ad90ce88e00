SPECIFICATION Spec
CONSTANTS
 N = 3
 K = 1
 V = {1}
 J = 2
 QS = 1
 HF = 0
 FMAX = 3
 CK = 1
 SES = 2
 SHARE = FALSE
 Ends = {"conv", "silent"}
 Faults = {}
 Bug = "none"
INVARIANTS Accounting NothingLost NotAfterKill IncumbentOK QueueBound Slots Busy KillsOK KillDelivered EndTruth EndAll Counters EndKept Cut Still Released Orderly Reason AllIn Messages
PROPERTIES EndStable
PROPERTIES Ends_ CkEnds
CHECK_DEADLOCK FALSE
