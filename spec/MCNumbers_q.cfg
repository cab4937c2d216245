SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Heads = {"4", "51", "55", "50", "34", "37", "36", "6011", "6012", "0", "9"}
  Fills = {"0", "9"}
  Lengths = {13, 14, 15, 16, 17}
  Styles = {"text", "int", "dashed", "blanks", "newline", "letter", "zero", "short"}
  Pieces = {"503", "555", "1212", "0", "(", "-", " x"}
  MostPieces = 4
INVARIANTS WrittenOut OneWrong Kind WidestKind Settled Kept10 TenDigits Emitted
