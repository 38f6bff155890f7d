SPECIFICATION Spec
CONSTANTS
  Explored <- MCExplored
  ValuesOf <- MCValuesOf
VIEW View
INVARIANTS TypeOK DetectsSingle DetectsSwap DifferenceSurvives CheckDigitCaught
PROPERTIES EdgeRight Ahead
CHECK_DEADLOCK FALSE
