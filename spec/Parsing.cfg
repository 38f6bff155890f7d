SPECIFICATION Spec
CONSTANTS
  Explored <- MCExplored
  Findings <- MCFindings
VIEW View
INVARIANTS PendingCompletes StatesTold
PROPERTIES VerdictEdge ValuesEdge ResidualEdge LimitsEdge BadStays
CHECK_DEADLOCK FALSE
