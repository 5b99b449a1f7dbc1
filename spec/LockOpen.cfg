SPECIFICATION Spec
CONSTANTS Threads={1,2} Calls <- CallsC MaxCalls=1 Depth=1000 Guarded=FALSE Log=FALSE
INVARIANTS Once
