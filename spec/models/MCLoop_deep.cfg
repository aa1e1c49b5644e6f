CONSTANTS
  K = 6
  Tries = 4
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Images Records Count Amplitudes Rescaled Gradients Left
