SPECIFICATION Spec
CONSTANTS
  MaxRows = 9
  MaxBytes = 9
  Polys = {3, 4}
  Ts = {1, 2, 3}
  MaxOps = 3
INVARIANTS Right Served Apart Shaped
CHECK_DEADLOCK FALSE
