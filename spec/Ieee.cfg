SPECIFICATION Spec
INVARIANTS IsNearest Kept
CHECK_DEADLOCK FALSE
