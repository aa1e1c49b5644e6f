CONSTANTS
  Lengths = {3, 4, 6, 9}
  Widths = {1, 2, 3, 4}
  Gaps = {2, 3, 5, 7, 8}
  Layers = {0, 1, 3}
  Ports = {1, 2, 3, 4, 5}
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Sizes DesignSym Filled Slabs Straight Outputs Channel Leaving Entering
