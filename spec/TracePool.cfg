SPECIFICATION Spec
VIEW View
INVARIANT Report
POSTCONDITION Consumed
CHECK_DEADLOCK FALSE
