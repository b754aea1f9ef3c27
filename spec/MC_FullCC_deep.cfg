SPECIFICATION Spec
CONSTANTS MaxH = 6
MaxCC = 4
MaxS = 4
MaxOm = 5
Ground = TRUE
INVARIANT Conserved
INVARIANT Sound
INVARIANT Complete
INVARIANT Classes
INVARIANT Written
INVARIANT Guards
CHECK_DEADLOCK FALSE
