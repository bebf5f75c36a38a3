SPECIFICATION Spec
CONSTANTS
  MaxRows = 5
  MaxBytes = 5
  Polys = {3, 4}
  Ts = {1, 2}
  MaxOps = 3
INVARIANTS Right Served Apart Shaped
CHECK_DEADLOCK FALSE
