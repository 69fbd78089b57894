SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Templates <- MC_Templates
  Puts <- MC_Puts
INVARIANTS Faithful Addressed Leads
