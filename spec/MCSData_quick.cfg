SPECIFICATION Spec
CONSTANTS MaxVal = 4 Alphabet = {32, 34, 61, 91, 92, 93, 120}
INVARIANTS RoundTrip Contained Reescape Lexical
CHECK_DEADLOCK FALSE
