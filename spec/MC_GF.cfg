SPECIFICATION Spec
CONSTANTS
  FieldBits = 8
  FieldPoly = 285
INVARIANTS TablesAreTheDefinition PowIsRepeatedProduct Commutative NoZeroDivisors Bilinear CommutesWithX NibbleTables Primitive
