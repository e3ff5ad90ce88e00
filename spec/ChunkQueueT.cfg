SPECIFICATION Spec
CONSTANTS P = {1,2,3}
 Items = 3
 Size = 1
 Chunk = 2
 Bug = "none"
INVARIANTS Bound Exact Fifo ChunkBound

CHECK_DEADLOCK FALSE
