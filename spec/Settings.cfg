SPECIFICATION Spec
CONSTANTS
  Names = {"g1", "g2"}
  Colours <- MCColours
  Nums <- MCNums
  Texts <- MCTexts
  Depth <- MCDepth
INVARIANTS LastGiven Commute
PROPERTY OneAtATime
CHECK_DEADLOCK FALSE
