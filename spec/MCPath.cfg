SPECIFICATION Spec
CONSTANT Old = ""
INVARIANTS Right NeverDestroyed Bounded
PROPERTY Answers
CHECK_DEADLOCK FALSE
