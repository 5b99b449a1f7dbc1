SPECIFICATION Spec
CONSTANTS BUF = 2
 N = 7
 Objects = {1, 2}
 Retries = {0, 1}
INVARIANTS NoneInvented NoneTwice NoneSilent GoodBuffer Bounded
CHECK_DEADLOCK FALSE
