SPECIFICATION Spec
CONSTANTS Alphabet = {32, 34, 45, 91, 92, 93, 195}
 MaxLen = 2
 Years = 100
INVARIANTS Inverse Injective Calendar
CHECK_DEADLOCK FALSE
