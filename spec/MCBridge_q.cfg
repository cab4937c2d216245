SPECIFICATION Spec
CONSTANTS
  Incs = {"", "a", "b,z", "p_a", "q"}
  Oms = {"", "a", "z", "b,c", "q"}
  Rens = {"", "a>z", "a>b", "q>a", "p_b>x", "z>w", "q>b,a>q", "a>b,b>a"}
  KeyFns = {"none", "pre", "one"}
CHECK_DEADLOCK FALSE
INVARIANTS Emitted RenamedAlways NeverOldName OnlyIncluded NothingOmitted AllWithoutLimits ReadsOnlyFields RoundTrip
