SPECIFICATION Spec
CONSTANTS
  Shapes = {1, 2, 3, 4}
  Down0s = {"", "T", "F", "None", "Skip", "SkipAll", "SkipAllFalse", "1,F", "Skip,F", "U,0", "T,SkipAll,F", "raise"}
  Up0s = {"", "T", "F", "None", "Skip", "SkipAll", "SkipAllFalse", "Skip,F", "raise"}
  Inners = {"", "T", "F", "Skip", "SkipAll", "SkipAllFalse"}
  Leafs = {"", "F", "SkipAll", "T,None"}
CHECK_DEADLOCK FALSE
INVARIANTS Emitted OnceBreadthFirst UpReversesDown Reached Flags Overall Stops OneSignalPerCall AllValidIs
PROPERTIES Ends
