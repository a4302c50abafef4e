SPECIFICATION Spec
CONSTANTS Mode = "model"
 MaxTokens = 6
INVARIANTS OneMeaning AllUsed Described Dump
PROPERTIES Grows
CHECK_DEADLOCK FALSE
