SPECIFICATION Spec
CONSTANTS
  Savers = {s1, s2}
  Chunks = 3
  Had = TRUE
  Strategy = "atomic"
  Temps <- TempNames
INVARIANTS TargetWhole OthersKept NoStray Answer
CHECK_DEADLOCK FALSE
