SPECIFICATION Spec
CONSTANTS Mode = "mask" Emit = TRUE
INVARIANTS Total Frame MaskLaws RoundTrip
CHECK_DEADLOCK FALSE
