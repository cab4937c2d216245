SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Schemes = {"", "http:", "ftp:", "HTTPS:"}
  Nets = {"", "//", "//h", "//u:p@H:80", "//h:x", "//[::1]:0"}
  Paths = {"", "/p", "p", "//p"}
  Params = {"", ";a"}
  Queries = {"", "?q"}
  Fragments = {"", "#f"}
  Soup = {"http:", "//", "h", "@", ":", "80", "/", ";", "?", "#", "[", "]", " "}
  SoupLen = 4
  Locals = {"", "b", "bob", "bob.x", " ", "Bob"}
  Ats = {"@", "", "@@"}
  Labels = {"", "a", "com", "COM", "A-b", "b_b", "a@"}
  MaxLabels = 3
  LuhnLen = 5
INVARIANTS ReadBack Discards Web OneOf Allows Addresses Checksum Emitted
