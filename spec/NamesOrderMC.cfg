SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS InvStrict InvTrans InvContig InvPath
