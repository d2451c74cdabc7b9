SPECIFICATION Spec
CONSTANTS
  FieldBits = 8
  FieldPoly = 285
VIEW View
INVARIANT Report
POSTCONDITION Consumed
CHECK_DEADLOCK FALSE
