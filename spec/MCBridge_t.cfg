SPECIFICATION Spec
CONSTANTS
  Incs = {"", "a", "b,z", "p_a", "q", "a,b,c", "z", "c,q", "p_c,p_b"}
  Oms = {"", "a", "z", "b,c", "q", "a,b,c", "p_a", "c,z"}
  Rens = {"", "a>z", "a>b", "q>a", "p_b>x", "z>w", "q>b,a>q", "a>b,b>a", "q>a,z>a", "a>x,a>y", "b>nope,q>nope", "q>c,c>q", "a>a"}
  KeyFns = {"none", "pre", "one"}
CHECK_DEADLOCK FALSE
INVARIANTS Emitted RenamedAlways NeverOldName OnlyIncluded NothingOmitted AllWithoutLimits ReadsOnlyFields RoundTrip
