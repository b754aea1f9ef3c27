SPECIFICATION Spec
CONSTANT Longest = 8
INVARIANT Depth
INVARIANT Closing
INVARIANT Parens
INVARIANT Modes
INVARIANT Scripts
INVARIANT Rows
CHECK_DEADLOCK FALSE
