SPECIFICATION Spec
CONSTANTS
  Depth = 3
  Group = "list"
VIEW View
CHECK_DEADLOCK FALSE
INVARIANTS Shape RoundTrip Stable Bounded DefaultsIdempotent SetAgain SeqLaws MapLaws
