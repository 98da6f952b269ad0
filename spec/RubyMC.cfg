INIT RbInit
NEXT RbNext
VIEW View
CHECK_DEADLOCK FALSE
INVARIANTS InvClosed InvResolution InvMerge InvMinimal InvRemove InvRoundTrip InvPropagated InvExport
