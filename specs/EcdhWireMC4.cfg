SPECIFICATION Spec
CONSTANTS Keys = {1, 2, 3, 4}
 AnyAnswer = FALSE
INVARIANTS NothingForOthers NoMoreThanDue AllDue
CHECK_DEADLOCK FALSE
