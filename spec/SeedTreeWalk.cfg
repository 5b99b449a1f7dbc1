SPECIFICATION Spec
CONSTANTS Ids={1,2,3,4} MaxKids=3 Depth=24 MaxLen=5
INVARIANTS Known EmitWalk
PROPERTIES NeverTwice OnlyForward
CONSTRAINT Bounded
CHECK_DEADLOCK FALSE
