SPECIFICATION Spec
CONSTANTS
  Keys = {"a", "b"}
  MaxOps = 3
  Vals = {"v1"}
  Kinds = {"del", "pop", "pop2", "setdefault", "update", "assign"}
VIEW Projected
CHECK_DEADLOCK FALSE
INVARIANTS Clean Inherits
PROPERTIES Local ReadBack
