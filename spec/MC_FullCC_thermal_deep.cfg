SPECIFICATION Spec
CONSTANTS MaxH = 4
MaxCC = 2
MaxS = 3
MaxOm = 3
Ground = FALSE
INVARIANT Conserved
INVARIANT Sound
INVARIANT Complete
INVARIANT Classes
INVARIANT Written
INVARIANT Guards
CHECK_DEADLOCK FALSE
