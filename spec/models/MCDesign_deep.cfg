CONSTANTS
  Shapes <- SmallShapes
  Projections <- Proj4
  Levels = 3
  Full = TRUE
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Admissible Uniform Between Ends ClearDisc NoAxis Inverse Periodic Linear Symmetric Derivative
PROPERTY Monotone
