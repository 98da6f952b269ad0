SPECIFICATION VSpec
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
