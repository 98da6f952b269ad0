SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
INVARIANTS InvClosed InvEquivalence
