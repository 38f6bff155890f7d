SPECIFICATION Spec
CONSTANTS
  Questions = {1, 2}
  Demanded <- MCDemanded
INVARIANTS OneAnswer Monotone FullOffersAll
CHECK_DEADLOCK FALSE
