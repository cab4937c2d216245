SPECIFICATION Spec
CONSTANTS
  Shapes = {1, 2, 3, 4}
  Down0s = {"", "T", "F", "None", "Skip", "SkipAll", "SkipAllFalse", "1,F", "Skip,F"}
  Up0s = {"", "T", "None", "SkipAll", "SkipAllFalse", "Skip,F"}
  Inners = {"", "F", "SkipAll", "SkipAllFalse"}
  Leafs = {"", "F", "SkipAll"}
CHECK_DEADLOCK FALSE
INVARIANTS Emitted OnceBreadthFirst UpReversesDown Reached Flags Overall Stops OneSignalPerCall AllValidIs
PROPERTIES Ends
