CONSTANTS Deep = FALSE
SPECIFICATION Spec
INVARIANTS Arrives NoFault Laws
PROPERTIES Detects
CHECK_DEADLOCK FALSE
