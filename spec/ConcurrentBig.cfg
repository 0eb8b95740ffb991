SPECIFICATION Spec
CONSTANTS
  Queriers = {1, 2, 3}
  Paths = {1, 2, 3, 4, 5}
  Capacity = 3
INVARIANTS TypeOK Answers
CHECK_DEADLOCK FALSE
