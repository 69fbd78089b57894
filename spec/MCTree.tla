---- MODULE MCTree ----
\* Written by tools/genpools.py
EXTENDS GitObjects

MC_Kinds ==
    {"tree"}
MC_Contents ==
    {}
MC_Hashes ==
    {<<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>,
     <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>}
MC_Names ==
    {<<97>>,
     <<98>>,
     <<97,32,98>>,
     <<97,47,98>>,
     <<46>>,
     <<>>,
     <<32>>,
     <<10>>,
     <<97,10>>,
     <<255>>,
     <<195,169>>,
     <<111,98,106,101,99,116>>}
MC_Modes ==
    {<<49,48,48,54,52,52>>,
     <<52,48,48,48,48>>,
     <<48,52,48,48,48,48>>,
     <<>>}
MC_MaxEntries ==
    2
MC_Persons ==
    {[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]}
MC_MaxParents ==
    0
MC_OptAuthor ==
    FALSE
MC_Encodings ==
    {}
MC_Tags ==
    {}
MC_MaxMergetags ==
    0
MC_Sigs ==
    {}
MC_Extras ==
    {}
MC_MaxExtras ==
    0
MC_Messages ==
    {<<109>>}
MC_Damages ==
    {"none"}
MC_DamageBytes ==
    {}
MC_RefLens ==
    {}
MC_Deltas ==
    {}
MC_Reframe ==
    FALSE
====
