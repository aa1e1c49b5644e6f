CONSTANTS
  Shapes <- MCShapes
  Samples = 25
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS FirstOrder ShiftX ShiftY Reciprocal Transposes Poynting KerrDerivative Tangent Components Objectives Adjoint AdjointNl Block
