SPECIFICATION Spec
VIEW View
INVARIANTS YieldIsSource ScopesNest StackOrdered Precedence
CHECK_DEADLOCK FALSE
