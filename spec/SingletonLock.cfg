SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Threads = {1, 2}
  Singles = {"A", "B"}
  MaxHold = 2
  MaxObjects = 3
  Locked = TRUE
INVARIANTS Safe OneObject HeldExists Exactly NoneLeft
