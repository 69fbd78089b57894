---- MODULE MCCommit ----
\* Written by tools/genpools.py
EXTENDS GitObjects

MC_Kinds ==
    {"commit"}
MC_Contents ==
    {}
MC_Hashes ==
    {<<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>,
     <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>}
MC_Names ==
    {}
MC_Modes ==
    {}
MC_MaxEntries ==
    0
MC_Persons ==
    {[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]}
MC_MaxParents ==
    2
MC_OptAuthor ==
    TRUE
MC_Encodings ==
    {<<85,84,70,45,56>>,
     <<>>}
MC_Tags ==
    {}
MC_MaxMergetags ==
    0
MC_Sigs ==
    {}
MC_Extras ==
    {[key |-> <<120>>, val |-> <<121>>],
     [key |-> <<120>>, val |-> <<121,10,122>>],
     [key |-> <<103,112,103,115,105,103>>, val |-> <<45,45,45,45,45,66,69,71,73,78,32,83,83,72,32,83,73,71,78,65,84,85,82,69,45,45,45,45,45,10,97,98,10,45,45,45,45,45,69,78,68,32,83,83,72,32,83,73,71,78,65,84,85,82,69,45,45,45,45,45>>]}
MC_MaxExtras ==
    2
MC_Messages ==
    {<<109>>,
     <<109,10>>,
     <<10>>,
     <<10,10>>,
     <<32>>,
     <<32,109,10>>,
     <<109,13,10>>,
     <<116,114,101,101,32,120,10>>,
     <<10,109>>,
     <<>>}
MC_Damages ==
    {"none"}
MC_DamageBytes ==
    {}
MC_RefLens ==
    {}
MC_Deltas ==
    {}
MC_Reframe ==
    FALSE
====
