SPECIFICATION Spec
CONSTANTS MaxT = 3
MaxH = 3
MaxZ = 4
INVARIANT Sound
INVARIANT Counted
CHECK_DEADLOCK FALSE
