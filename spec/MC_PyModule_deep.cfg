SPECIFICATION Spec
CONSTANT Longest = 7
INVARIANT Exact
INVARIANT Definite
CHECK_DEADLOCK FALSE
