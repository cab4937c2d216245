SPECIFICATION Spec
CONSTANTS
  Depth = 2
  Group = "seq"
VIEW View
CHECK_DEADLOCK FALSE
INVARIANTS Shape RoundTrip Stable Bounded DefaultsIdempotent SetAgain SeqLaws MapLaws
