SPECIFICATION Spec
CONSTANTS
  Group = "all"
  MaxLen = 5
CHECK_DEADLOCK FALSE
INVARIANTS Refusal Canonical Signs Synonyms Declared StripMatters
PROPERTIES Fixpoint
