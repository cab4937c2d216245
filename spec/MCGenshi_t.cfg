SPECIFICATION Spec
CONSTANTS
  Size = 4
  LeafSet = {"input", "forced", "area", "label", "optval", "setidx", "setoff", "text"}
  OpenSet = {"withidx", "withoff", "never", "twice", "select"}
CHECK_DEADLOCK FALSE
INVARIANTS Even Clean Nested NoTrace Numbered AsWritten Emitted
