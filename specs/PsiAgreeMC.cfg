SPECIFICATION Spec
CONSTANTS Shared = {"protocol", "join"}
 Private = {"path"}
 Values = {1, 2}
 Stages = 3
INVARIANTS NothingBeforeAgreement NoFalseSuccess
PROPERTY AllStop
CHECK_DEADLOCK FALSE
