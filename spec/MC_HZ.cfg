SPECIFICATION Spec
CONSTANTS MaxT = 2
MaxH = 2
MaxZ = 3
INVARIANT Sound
INVARIANT Counted
CHECK_DEADLOCK FALSE
