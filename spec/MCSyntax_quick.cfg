SPECIFICATION Spec
CONSTANTS MaxLen = 4 Alphabet = {0, 10, 32, 49, 50, 120}
CONSTANT WellFormed <- Toy
INVARIANTS Prefix AtEnd NoRest Now Tiled
CHECK_DEADLOCK FALSE
