SPECIFICATION Spec
CONSTANTS
  FieldBits = 8
  FieldPoly = 285
  Sets = 150
  MaxLen = 60
INVARIANTS Reads ReadsFromTheEnd Emit
CHECK_DEADLOCK FALSE
