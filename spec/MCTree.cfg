SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Kinds <- MC_Kinds
  Contents <- MC_Contents
  Hashes <- MC_Hashes
  Names <- MC_Names
  Modes <- MC_Modes
  MaxEntries <- MC_MaxEntries
  Persons <- MC_Persons
  MaxParents <- MC_MaxParents
  OptAuthor <- MC_OptAuthor
  Encodings <- MC_Encodings
  Tags <- MC_Tags
  MaxMergetags <- MC_MaxMergetags
  Sigs <- MC_Sigs
  Extras <- MC_Extras
  MaxExtras <- MC_MaxExtras
  Messages <- MC_Messages
  Damages <- MC_Damages
  DamageBytes <- MC_DamageBytes
  RefLens <- MC_RefLens
  Deltas <- MC_Deltas
  Reframe <- MC_Reframe
INVARIANTS Accepted RightNode RoundTrip RunAgrees NothingLost CutNoticed ClaimNoticed Injective Safe ReadAll
PROPERTY ReadsOn
