SPECIFICATION Spec
CONSTANTS
  Threads = {"t1", "t2", "t3", "t4"}
  Classes = {"A", "B"}
  Nested = {"B"}
  FlagAt = "outer"
  Rechecks = TRUE
  Wanted = {"A,A,A,A", "A,B,A,B", "B,B,A,B"}
CHECK_DEADLOCK FALSE
INVARIANTS OnceOnly NeverEarly Apart Emitted
PROPERTIES Terminates
