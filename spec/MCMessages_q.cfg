SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Depth = 2
  Notes = 1
  Free = 1
PROPERTIES Kept
INVARIANTS OnceEach Precedence Unknown Untranslated Nearest StateFirst OneForm Called Emitted
