SPECIFICATION Spec
CONSTANT Largest = 10
INVARIANT Sound
INVARIANT OrderSound
INVARIANT Complete
INVARIANT Classes
INVARIANT Euler
INVARIANT Compositions
INVARIANT Symmetric
CHECK_DEADLOCK FALSE
