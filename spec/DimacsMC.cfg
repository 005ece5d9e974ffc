SPECIFICATION Spec
CONSTANTS
  Alphabet <- Alphabet1
  MaxLen = 4
INVARIANT Agrees
INVARIANT Type
CHECK_DEADLOCK FALSE
