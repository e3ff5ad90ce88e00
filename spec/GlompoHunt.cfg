SPECIFICATION Spec
CONSTANTS
 N = 2
 K = 2
 V = {1, 2}
 J = 2
 QS = 2
 HF = 1
 FMAX = 3
 CK = 0
 SES = 1
 SHARE = FALSE
 Ends = {"conv", "silent"}
 Faults = {}
 Bug = "none"
INVARIANTS Accounting NothingLost NotAfterKill IncumbentOK QueueBound Slots Busy KillsOK KillDelivered EndTruth EndAll Counters EndKept Cut Still Released Orderly Reason AllIn Messages
PROPERTIES EndStable
CHECK_DEADLOCK FALSE
