SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Threads = {1, 2, 3}
  Singles = {"A"}
  MaxHold = 1
  MaxObjects = 4
  Locked = TRUE
INVARIANTS Safe OneObject HeldExists Exactly NoneLeft
