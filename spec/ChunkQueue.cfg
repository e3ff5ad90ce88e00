SPECIFICATION Spec
CONSTANTS P = {1,2}
 Items = 4
 Size = 2
 Chunk = 3
 Bug = "none"
INVARIANTS Bound Exact Fifo ChunkBound
PROPERTY Through
CHECK_DEADLOCK FALSE
