SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Threads = {1, 2}
  Singles = {"A"}
  MaxHold = 1
  MaxObjects = 3
  Locked = FALSE
INVARIANTS Safe OneObject HeldExists Exactly NoneLeft
