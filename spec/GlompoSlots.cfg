SPECIFICATION Spec
CONSTANTS
 N = 3
 K = 1
 V = {1}
 J = 1
 QS = 1
 HF = 1
 FMAX = 3
 CK = 0
 SES = 1
 SHARE = TRUE
 Ends = {"conv", "raise", "note"}
 Faults = {"die"}
 Bug = "none"
INVARIANTS Accounting NothingLost NotAfterKill IncumbentOK QueueBound Slots Busy KillsOK KillDelivered EndTruth EndAll Counters EndKept Cut Still Released Orderly Reason AllIn Messages
PROPERTIES EndStable
CHECK_DEADLOCK FALSE
