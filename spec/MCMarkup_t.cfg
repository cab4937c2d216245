SPECIFICATION Spec
CONSTANTS
  Mode = "table"
  Tags = {"input", "textarea", "option", "button", "select", "form", "label", "div"}
  Types = {"~", "radio", "checkbox", "password", "image", "hidden"}
  Values = {"~", "", "v", "w", "a<&\"b"}
  TagLevel = {"~", "on", "off", "auto"}
  ScopeLevel = {"True", "False", "auto"}
  Bodies = {"~", "", "v", " v "}
  Depth = 0
CHECK_DEADLOCK FALSE
INVARIANTS Off Kept2 Supported NoControls Checks Bodied ReadsBack Named Emitted
