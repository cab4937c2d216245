SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Members = 4
  Bounds = 5
  Texts = {"", "a", "A", "ab", "1", "b", "abc"}
  Ints = {0, 1, 2, 3}
PROPERTIES Monotone
INVARIANTS Says Agree OnePerValue Emitted
