SPECIFICATION HSpec
CONSTANTS Kind = "inst" Depth = 4 MaxPoint = 4 NumScopes = 3
INVARIANTS InstanceLookup TypeIdentity Hiding ReductionVisibility ShortestPaths TreesAreTrees Emit
PROPERTIES HandlesForever EntriesForever
CHECK_DEADLOCK FALSE
