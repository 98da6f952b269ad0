SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
INVARIANTS InvClosed InvResolution InvEquivalence InvMerge InvMergeOrder InvMinimal InvRemove InvRoundTrip InvPropagated
