SPECIFICATION Spec
CONSTANTS
  Group = "all"
  MaxLen = 3
CHECK_DEADLOCK FALSE
INVARIANTS Refusal Canonical Signs Synonyms Declared StripMatters
PROPERTIES Fixpoint
