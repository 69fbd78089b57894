SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Bufs <- MC_Bufs
  Alphabet <- MC_Alphabet
  Depth <- MC_Depth
INVARIANT Typing
PROPERTY Immutable
