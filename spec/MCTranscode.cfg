SPECIFICATION Spec
CONSTANTS
  N = 2
  Pairs <- MCPairs
INVARIANTS InRoom LimitCutsOnly Stops Resume OutputValid Lossless OneEach NotesExact StopIsNoted FirstErrorStops Covers
PROPERTY Progress
CHECK_DEADLOCK FALSE
