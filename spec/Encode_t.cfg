SPECIFICATION Spec
CONSTANTS
  FieldBits = 8
  FieldPoly = 285
  Sets = 1500
  MaxLen = 300
INVARIANTS Reads ReadsFromTheEnd Emit
CHECK_DEADLOCK FALSE
