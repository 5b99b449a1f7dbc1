SPECIFICATION Spec
CONSTANTS Threads={1,2,3} Calls <- CallsD MaxCalls=9 Depth=60 Guarded=TRUE Log=TRUE
INVARIANTS Once Contiguous FreeWhenNobody Exclusive EmitWalk
CONSTRAINT Bounded
CHECK_DEADLOCK FALSE
