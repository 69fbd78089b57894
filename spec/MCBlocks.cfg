SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Versions <- MC_Versions
  Codecs <- MC_Codecs
  Hashes <- MC_Hashes
  Lengths <- MC_Lengths
  Datas <- MC_Datas
INVARIANTS Parsed Own
PROPERTY Decided
