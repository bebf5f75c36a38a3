SPECIFICATION Spec
CONSTANTS
  Twist = "none"
  Keys = {1, 2}
  MaxRows = 2
  Joins = {1, 2, 3, 4, 5}
INVARIANTS Runs Equal Differ ByPlace UbAgree
PROPERTY AllStop
CHECK_DEADLOCK FALSE
