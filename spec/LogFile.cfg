SPECIFICATION Spec
CONSTANTS NO = 2
 MaxF = 4
 MaxCk = 2
 MaxSess = 3
 Bug = "none"
INVARIANTS Story Complete Prefix Last
CHECK_DEADLOCK FALSE
