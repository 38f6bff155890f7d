SPECIFICATION Spec
CONSTANTS
  Which <- MCWhich
  ModulesOf <- MCModulesOf
  SettingsOf <- MCSettingsOf
INVARIANTS ImgRight FileWhenFits TurnsAdd AscRight JsonOk JsonNeverBad SvgOk OpacityNearest
CHECK_DEADLOCK FALSE
