SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Objs <- MC_Objs
INVARIANTS Prefix Honest Objective
PROPERTY Returns
