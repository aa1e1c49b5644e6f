CONSTANTS
  MaxObj = 2
  Tokens = {1, 2}
  Oms = {1, 2}
  MaxNl = 1
  MaxOps = 5
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Fresh Current NoHistory
PROPERTY Frame
