SPECIFICATION Spec
CONSTANTS NO = 2
 MaxF = 5
 MaxCk = 3
 MaxSess = 3
 Bug = "none"
INVARIANTS Story Complete Prefix Last
CHECK_DEADLOCK FALSE
