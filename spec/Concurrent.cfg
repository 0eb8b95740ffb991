SPECIFICATION Spec
CONSTANTS
  Queriers = {1, 2, 3}
  Paths = {1, 2, 3}
  Capacity = 2
INVARIANTS TypeOK Answers
CHECK_DEADLOCK FALSE
