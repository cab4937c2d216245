SPECIFICATION Spec
CONSTANTS
  Mode = "scopes"
  Tags = {}
  Types = {}
  Values = {}
  TagLevel = {}
  ScopeLevel = {}
  Bodies = {}
  Depth = 5
CHECK_DEADLOCK FALSE
INVARIANTS Stacked Emitted
