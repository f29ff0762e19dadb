SPECIFICATION Spec
CONSTANTS Alphabet = {32, 34, 61, 92, 93, 97, 9, 200}
MaxLen = 5
INVARIANTS TypeOk Progress Whole Bare Agree Back
CHECK_DEADLOCK FALSE
