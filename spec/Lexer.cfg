SPECIFICATION Spec
VIEW View
INVARIANTS OffsideBalanced ClosedAtEnd LinesRise LineIsCount
CHECK_DEADLOCK FALSE
