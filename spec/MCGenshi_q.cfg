SPECIFICATION Spec
CONSTANTS
  Size = 3
  LeafSet = {"input", "forced", "check", "plain", "none", "area", "label", "option", "optval", "setidx", "setoff", "setfil", "text", "call"}
  OpenSet = {"withidx", "withoff", "withfil", "twice", "when", "never", "select", "button", "div"}
CHECK_DEADLOCK FALSE
INVARIANTS Even Clean Nested NoTrace Numbered AsWritten Emitted
