SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Roots <- MC_Roots
  Keys <- MC_Keys
  MaxEntries <- MC_MaxEntries
  Shallow <- MC_Shallow
  Strange <- MC_Strange
VIEW View
CONSTRAINT Bound
INVARIANTS Sound Usable
PROPERTY Refusals
