SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Claims <- MC_Claims
  Kinds <- MC_Kinds
  Amounts <- MC_Amounts
  First <- MC_First
  Copies <- MC_Copies
INVARIANTS InBudget Amortised
