SPECIFICATION Spec
CONSTANT MaxTok = 8
INVARIANTS Correct Bounded
PROPERTIES Shrinks
CHECK_DEADLOCK FALSE
