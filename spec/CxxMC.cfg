SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
INVARIANTS InvOrder InvGrounded InvSound InvMonotone
