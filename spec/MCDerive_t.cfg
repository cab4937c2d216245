SPECIFICATION Spec
CONSTANTS
  MaxForms = 3
  Owns = {"", "5", "6,7"}
  Decls = {"", "x=1", "x=2,y=1"}
VIEW Projected
CHECK_DEADLOCK FALSE
INVARIANTS Precedence OnceEach Extends
PROPERTIES BasesKept
