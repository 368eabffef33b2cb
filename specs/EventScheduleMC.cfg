CONSTANTS Times = {1, 2, 3}
Width = 6
MaxOps = 9
SPECIFICATION Spec
INVARIANTS UniqueTop MechanismAgrees Conservation Fifo NeverExceeds
PROPERTY PopIsEarliest
CHECK_DEADLOCK FALSE
