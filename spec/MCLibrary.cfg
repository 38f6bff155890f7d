SPECIFICATION Spec
CONSTANTS
  Obj = {"o1", "o2"}
  Thr = {"t1", "t2"}
  Gen = {"g1"}
  Data <- MCData
  MaxFlips <- MCFlips
INVARIANTS Settled CallsLive ShowsAll
PROPERTIES CallsPure Isolated
CHECK_DEADLOCK FALSE
