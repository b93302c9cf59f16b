SPECIFICATION Spec
INVARIANT Inv
CHECK_DEADLOCK FALSE
CONSTANTS
 Digits = {0,1,128,255}
 Shifts = {1,7,8,9,31,33}
