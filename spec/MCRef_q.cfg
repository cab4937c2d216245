SPECIFICATION Spec
CONSTANTS
  MaxOps = 2
  TargetsB = {"a", ".sub.d"}
  TargetsC = {"b", ".a"}
  TargetsE = {"a", "sub.d", ".c"}
  Perms = {"True", "False", "ignore"}
  Hows = {"set", "u"}
  Vals = {"4", "x"}
VIEW Projected
CHECK_DEADLOCK FALSE
INVARIANTS Grounded OnlyTheTarget RefusedKeeps TypeErrorIff Through IgnoredKeeps
