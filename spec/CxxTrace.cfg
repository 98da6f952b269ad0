SPECIFICATION CSpec
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
