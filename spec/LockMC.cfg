SPECIFICATION Spec
CONSTANTS Threads={1,2,3} Calls <- CallsA MaxCalls=1 Depth=1000 Guarded=TRUE Log=FALSE
INVARIANTS Once Contiguous FreeWhenNobody Exclusive
