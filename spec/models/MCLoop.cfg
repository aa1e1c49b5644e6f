CONSTANTS
  K = 3
  Tries = 3
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Images Records Count Amplitudes Rescaled Gradients Left
