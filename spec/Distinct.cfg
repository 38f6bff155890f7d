SPECIFICATION Spec
CONSTANTS
  Parts <- MCParts
  Vals <- MCVals
  Knowns <- MCKnowns
INVARIANTS Caught Apart Bounded
CHECK_DEADLOCK FALSE
