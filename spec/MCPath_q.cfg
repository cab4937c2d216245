SPECIFICATION Spec
CONSTANTS
  MaxTokens = 3
  Tokens = {"/", "/..", "/.", "..", ".", "/l", "l", "m", "/m", "/x", "[0]", "[-1]", "[2]", "[:]", "[1:]", "[::-1]", "/\\.\\.", "/nope"}
CHECK_DEADLOCK FALSE
INVARIANTS Emitted InTree AbsoluteAnywhere NoSliceOne NonStrict Strictness Canonical SliceLaws Addressable
