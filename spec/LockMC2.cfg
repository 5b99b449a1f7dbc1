SPECIFICATION Spec
CONSTANTS Threads={1,2} Calls <- CallsB MaxCalls=2 Depth=1000 Guarded=TRUE Log=FALSE
INVARIANTS Once Contiguous FreeWhenNobody Exclusive
