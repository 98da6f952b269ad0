SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
INVARIANTS InvShape InvHeld InvRoundTrip InvWrapper InvSimple
