SPECIFICATION Spec
CONSTANT MaxTok = 6
INVARIANTS Correct Bounded
PROPERTIES Shrinks
CHECK_DEADLOCK FALSE
