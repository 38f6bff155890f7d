SPECIFICATION Spec
CONSTANTS
  Theme <- MCTheme
  Length <- MCLength
  ObjNames <- MCObjNames
  GenNames = {"g", "h"}
  Threads = {"t1", "t2", "t3"}
INVARIANTS Printed
CHECK_DEADLOCK FALSE
