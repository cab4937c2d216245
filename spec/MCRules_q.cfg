SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Members = 3
  Bounds = 3
  Texts = {"", "a", "A", "ab", "1"}
  Ints = {0, 1, 2}
PROPERTIES Monotone
INVARIANTS Says Agree OnePerValue Emitted
