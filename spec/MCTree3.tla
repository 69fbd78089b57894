---- MODULE MCTree3 ----
\* Written by tools/genpools.py
EXTENDS GitObjects

MC_Kinds ==
    {"tree"}
MC_Contents ==
    {}
MC_Hashes ==
    {<<10,10,10,10,10,10,10,10,10,10,10,10,10,10,10,10,10,10,10,10>>}
MC_Names ==
    {<<97>>,
     <<98>>,
     <<>>,
     <<32>>,
     <<255>>,
     <<97,46,99>>}
MC_Modes ==
    {<<49,48,48,54,52,52>>,
     <<48,52,48,48,48,48>>}
MC_MaxEntries ==
    4
MC_Persons ==
    {[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]}
MC_MaxParents ==
    0
MC_OptAuthor ==
    FALSE
MC_Encodings ==
    {}
MC_Tags ==
    {}
MC_MaxMergetags ==
    0
MC_Sigs ==
    {}
MC_Extras ==
    {}
MC_MaxExtras ==
    0
MC_Messages ==
    {<<109>>}
MC_Damages ==
    {"none"}
MC_DamageBytes ==
    {}
MC_RefLens ==
    {}
MC_Deltas ==
    {}
MC_Reframe ==
    FALSE
====
