SPECIFICATION Spec
CONSTANTS
  Which <- MCWhich
  InputsOf <- MCInputsOf
INVARIANTS VerdictRight AcceptRight ValuesRight BarsRight ReadsBack LooksRight SizeRight
CHECK_DEADLOCK FALSE
