CONSTANT MaxToks = 3
SPECIFICATION Spec
INVARIANT Literal
INVARIANT SegmentBound
INVARIANT Laws
INVARIANT Alternatives
INVARIANT Emit
CHECK_DEADLOCK FALSE
