SPECIFICATION Spec
CONSTANTS
  FieldBits = 8
  FieldPoly = 283
INVARIANTS Primitive
