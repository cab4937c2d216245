SPECIFICATION Spec
CONSTANTS
  MaxForms = 2
  Owns = {"", "5", "6,7", "5,6"}
  Decls = {"", "x=1", "x=2,y=1", "z=5", "y=6"}
VIEW Projected
CHECK_DEADLOCK FALSE
INVARIANTS Precedence OnceEach Extends
PROPERTIES BasesKept
