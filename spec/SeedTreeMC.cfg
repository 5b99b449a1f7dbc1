SPECIFICATION Spec
CONSTANTS Ids={1,2,3} MaxKids=2 Depth=5 MaxLen=3
INVARIANT Known
PROPERTIES NeverTwice OnlyForward
CONSTRAINT Bounded
VIEW VView
CHECK_DEADLOCK FALSE
