SPECIFICATION Spec
CONSTANT BUF = 256
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
