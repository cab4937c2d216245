SPECIFICATION Spec
CONSTANTS
  MaxOps = 2
  TargetsB = {"a", ".sub.d"}
  TargetsC = {"b", ".a"}
  TargetsE = {"a", "sub.d", ".c"}
  Perms = {"True", "False", "ignore"}
  Hows = {"set", "value"}
  Vals = {"4", "x", "none"}
VIEW Projected
CHECK_DEADLOCK FALSE
INVARIANTS Grounded OnlyTheTarget RefusedKeeps TypeErrorIff Through IgnoredKeeps
