CONSTANTS
  Shapes <- SmallShapes
  Projections <- Proj4
  Levels = 2
  Full = FALSE
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Admissible Uniform Between Ends ClearDisc NoAxis Inverse Periodic Linear Symmetric Derivative
PROPERTY Monotone
