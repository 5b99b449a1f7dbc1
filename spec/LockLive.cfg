SPECIFICATION Fair
CONSTANTS Threads={1,2} Calls <- CallsA MaxCalls=1 Depth=1000 Guarded=TRUE Log=FALSE
PROPERTY Ends
