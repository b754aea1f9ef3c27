SPECIFICATION Spec
CONSTANTS MaxH = 2
MaxCC = 2
MaxS = 3
MaxOm = 2
Ground = TRUE
INVARIANT Conserved
INVARIANT Sound
INVARIANT Complete
INVARIANT Classes
INVARIANT Written
INVARIANT Guards
CHECK_DEADLOCK FALSE
