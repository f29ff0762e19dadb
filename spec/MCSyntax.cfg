SPECIFICATION Spec
CONSTANTS MaxLen = 5 Alphabet = {0, 10, 32, 48, 49, 50, 120}
CONSTANT WellFormed <- Toy
INVARIANTS Prefix AtEnd NoRest Now Tiled
CHECK_DEADLOCK FALSE
