SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
INVARIANTS InvShape InvEq InvCanonical InvMarshal InvSwap InvZero InvText InvVisit
