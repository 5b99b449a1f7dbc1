SPECIFICATION RSpec
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
