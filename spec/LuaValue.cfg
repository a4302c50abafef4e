SPECIFICATION Spec
CONSTANTS Mode = "model"
 MaxEntries = 2
INVARIANTS Coarser Complete Bounded Marked Dump
CHECK_DEADLOCK FALSE
