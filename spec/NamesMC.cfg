SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS InvTotal InvAbs InvSplit InvRelative InvDerived InvParse InvNorm InvRoot
