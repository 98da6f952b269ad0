SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
INVARIANTS InvForest
PROPERTIES Laws
