SPECIFICATION Spec
CONSTANT Longest = 5
INVARIANT Exact
INVARIANT Definite
CHECK_DEADLOCK FALSE
