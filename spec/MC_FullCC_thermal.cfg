SPECIFICATION Spec
CONSTANTS MaxH = 2
MaxCC = 2
MaxS = 2
MaxOm = 2
Ground = FALSE
INVARIANT Conserved
INVARIANT Sound
INVARIANT Complete
INVARIANT Classes
INVARIANT Written
INVARIANT Guards
CHECK_DEADLOCK FALSE
