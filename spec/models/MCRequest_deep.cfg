CONSTANTS
  Tokens = {1, 2}
  Oms = {1, 2}
  Objectives = {1, 2}
  MaxSims = 2
  MaxNl = 1
  MaxOps = 6
  Key = {"objective", "sim", "operator", "omega", "source", "nonlinearity", "fields"}
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Truthful Stored
PROPERTY Twice
