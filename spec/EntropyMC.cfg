SPECIFICATION Spec
CONSTANTS Max = 4
 Calls = 4
INVARIANTS Delivered Announced Refusals NoLeak
PROPERTY Ends
CHECK_DEADLOCK FALSE
