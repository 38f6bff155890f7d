SPECIFICATION Spec
CONSTANTS
  Which <- MCWhich
  InputsOf <- MCInputsOf
  Settings <- MCSettings
INVARIANTS SameModules ReadsBack DataThere SvgFine
CHECK_DEADLOCK FALSE
