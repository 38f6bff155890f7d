SPECIFICATION Spec
INVARIANT AsPublished
CHECK_DEADLOCK FALSE
