SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
INVARIANTS InvConsistent InvAlive InvNone
PROPERTIES Accounted
