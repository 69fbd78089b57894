SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Kinds <- MC_Kinds
  Pool <- MC_Pool
  Scalars <- MC_Scalars
  Orders <- MC_Orders
  Forms <- MC_Forms
  Faults <- MC_Faults
INVARIANTS OneEncoding Encodable Survives Value TrueLength NoDisguise
