CONSTANTS
  Lengths = {4, 7}
  Widths = {2, 3}
  Gaps = {3, 6}
  Layers = {0, 2}
  Ports = {1, 2, 3}
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Sizes DesignSym Filled Slabs Straight Outputs Channel Leaving Entering
