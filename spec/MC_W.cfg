SPECIFICATION Spec
CONSTANTS Order = 6
Ranks = 6
INVARIANT Sound
INVARIANT Complete
INVARIANT Bell
INVARIANT Nested
CHECK_DEADLOCK FALSE
