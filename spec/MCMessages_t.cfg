SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Depth = 3
  Notes = 2
  Free = 1
PROPERTIES Kept
INVARIANTS OnceEach Precedence Unknown Untranslated Nearest StateFirst OneForm Called Emitted
