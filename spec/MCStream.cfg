SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Inputs <- MC_Inputs
  Pieces <- MC_Pieces
INVARIANTS OneResult FaultSurfaces Causal
PROPERTY Terminates
