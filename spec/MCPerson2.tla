---- MODULE MCPerson2 ----
\* Written by tools/genpools.py
EXTENDS GitObjects

MC_Kinds ==
    {"commit"}
MC_Contents ==
    {}
MC_Hashes ==
    {<<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>}
MC_Names ==
    {}
MC_Modes ==
    {}
MC_MaxEntries ==
    0
MC_Persons ==
    {[name |-> <<>>, email |-> <<>>, date |-> <<53>>, tz |-> <<43,48>>],
     [name |-> <<>>, email |-> <<97>>, date |-> <<53>>, tz |-> <<43,48>>],
     [name |-> <<>>, email |-> <<97,32,98>>, date |-> <<53>>, tz |-> <<43,48>>],
     [name |-> <<>>, email |-> <<97,64,98>>, date |-> <<53>>, tz |-> <<43,48>>],
     [name |-> <<>>, email |-> <<97,32,32,98>>, date |-> <<53>>, tz |-> <<43,48>>],
     [name |-> <<>>, email |-> <<97,60,98>>, date |-> <<53>>, tz |-> <<43,48>>],
     [name |-> <<>>, email |-> <<254>>, date |-> <<53>>, tz |-> <<43,48>>],
     [name |-> <<>>, email |-> <<32>>, date |-> <<53>>, tz |-> <<43,48>>],
     [name |-> <<>>, email |-> <<97,32>>, date |-> <<53>>, tz |-> <<43,48>>],
     [name |-> <<65>>, email |-> <<>>, date |-> <<53>>, tz |-> <<43,48>>],
     [name |-> <<65>>, email |-> <<97>>, date |-> <<53>>, tz |-> <<43,48>>],
     [name |-> <<65>>, email |-> <<97,32,98>>, date |-> <<53>>, tz |-> <<43,48>>],
     [name |-> <<65>>, email |-> <<97,64,98>>, date |-> <<53>>, tz |-> <<43,48>>],
     [name |-> <<65>>, email |-> <<97,32,32,98>>, date |-> <<53>>, tz |-> <<43,48>>],
     [name |-> <<65>>, email |-> <<97,60,98>>, date |-> <<53>>, tz |-> <<43,48>>],
     [name |-> <<65>>, email |-> <<254>>, date |-> <<53>>, tz |-> <<43,48>>],
     [name |-> <<65>>, email |-> <<32>>, date |-> <<53>>, tz |-> <<43,48>>],
     [name |-> <<65>>, email |-> <<97,32>>, date |-> <<53>>, tz |-> <<43,48>>],
     [name |-> <<65,32,66>>, email |-> <<>>, date |-> <<53>>, tz |-> <<43,48>>],
     [name |-> <<65,32,66>>, email |-> <<97>>, date |-> <<53>>, tz |-> <<43,48>>],
     [name |-> <<65,32,66>>, email |-> <<97,32,98>>, date |-> <<53>>, tz |-> <<43,48>>],
     [name |-> <<65,32,66>>, email |-> <<97,64,98>>, date |-> <<53>>, tz |-> <<43,48>>],
     [name |-> <<65,32,66>>, email |-> <<97,32,32,98>>, date |-> <<53>>, tz |-> <<43,48>>],
     [name |-> <<65,32,66>>, email |-> <<97,60,98>>, date |-> <<53>>, tz |-> <<43,48>>],
     [name |-> <<65,32,66>>, email |-> <<254>>, date |-> <<53>>, tz |-> <<43,48>>],
     [name |-> <<65,32,66>>, email |-> <<32>>, date |-> <<53>>, tz |-> <<43,48>>],
     [name |-> <<65,32,66>>, email |-> <<97,32>>, date |-> <<53>>, tz |-> <<43,48>>],
     [name |-> <<65,32,32,66>>, email |-> <<>>, date |-> <<53>>, tz |-> <<43,48>>],
     [name |-> <<65,32,32,66>>, email |-> <<97>>, date |-> <<53>>, tz |-> <<43,48>>],
     [name |-> <<65,32,32,66>>, email |-> <<97,32,98>>, date |-> <<53>>, tz |-> <<43,48>>],
     [name |-> <<65,32,32,66>>, email |-> <<97,64,98>>, date |-> <<53>>, tz |-> <<43,48>>],
     [name |-> <<65,32,32,66>>, email |-> <<97,32,32,98>>, date |-> <<53>>, tz |-> <<43,48>>],
     [name |-> <<65,32,32,66>>, email |-> <<97,60,98>>, date |-> <<53>>, tz |-> <<43,48>>],
     [name |-> <<65,32,32,66>>, email |-> <<254>>, date |-> <<53>>, tz |-> <<43,48>>],
     [name |-> <<65,32,32,66>>, email |-> <<32>>, date |-> <<53>>, tz |-> <<43,48>>],
     [name |-> <<65,32,32,66>>, email |-> <<97,32>>, date |-> <<53>>, tz |-> <<43,48>>],
     [name |-> <<32,65>>, email |-> <<>>, date |-> <<53>>, tz |-> <<43,48>>],
     [name |-> <<32,65>>, email |-> <<97>>, date |-> <<53>>, tz |-> <<43,48>>],
     [name |-> <<32,65>>, email |-> <<97,32,98>>, date |-> <<53>>, tz |-> <<43,48>>],
     [name |-> <<32,65>>, email |-> <<97,64,98>>, date |-> <<53>>, tz |-> <<43,48>>],
     [name |-> <<32,65>>, email |-> <<97,32,32,98>>, date |-> <<53>>, tz |-> <<43,48>>],
     [name |-> <<32,65>>, email |-> <<97,60,98>>, date |-> <<53>>, tz |-> <<43,48>>],
     [name |-> <<32,65>>, email |-> <<254>>, date |-> <<53>>, tz |-> <<43,48>>],
     [name |-> <<32,65>>, email |-> <<32>>, date |-> <<53>>, tz |-> <<43,48>>],
     [name |-> <<32,65>>, email |-> <<97,32>>, date |-> <<53>>, tz |-> <<43,48>>],
     [name |-> <<65,32>>, email |-> <<>>, date |-> <<53>>, tz |-> <<43,48>>],
     [name |-> <<65,32>>, email |-> <<97>>, date |-> <<53>>, tz |-> <<43,48>>],
     [name |-> <<65,32>>, email |-> <<97,32,98>>, date |-> <<53>>, tz |-> <<43,48>>],
     [name |-> <<65,32>>, email |-> <<97,64,98>>, date |-> <<53>>, tz |-> <<43,48>>],
     [name |-> <<65,32>>, email |-> <<97,32,32,98>>, date |-> <<53>>, tz |-> <<43,48>>],
     [name |-> <<65,32>>, email |-> <<97,60,98>>, date |-> <<53>>, tz |-> <<43,48>>],
     [name |-> <<65,32>>, email |-> <<254>>, date |-> <<53>>, tz |-> <<43,48>>],
     [name |-> <<65,32>>, email |-> <<32>>, date |-> <<53>>, tz |-> <<43,48>>],
     [name |-> <<65,32>>, email |-> <<97,32>>, date |-> <<53>>, tz |-> <<43,48>>],
     [name |-> <<97,62,98>>, email |-> <<>>, date |-> <<53>>, tz |-> <<43,48>>],
     [name |-> <<97,62,98>>, email |-> <<97>>, date |-> <<53>>, tz |-> <<43,48>>],
     [name |-> <<97,62,98>>, email |-> <<97,32,98>>, date |-> <<53>>, tz |-> <<43,48>>],
     [name |-> <<97,62,98>>, email |-> <<97,64,98>>, date |-> <<53>>, tz |-> <<43,48>>],
     [name |-> <<97,62,98>>, email |-> <<97,32,32,98>>, date |-> <<53>>, tz |-> <<43,48>>],
     [name |-> <<97,62,98>>, email |-> <<97,60,98>>, date |-> <<53>>, tz |-> <<43,48>>],
     [name |-> <<97,62,98>>, email |-> <<254>>, date |-> <<53>>, tz |-> <<43,48>>],
     [name |-> <<97,62,98>>, email |-> <<32>>, date |-> <<53>>, tz |-> <<43,48>>],
     [name |-> <<97,62,98>>, email |-> <<97,32>>, date |-> <<53>>, tz |-> <<43,48>>],
     [name |-> <<97,60,98>>, email |-> <<>>, date |-> <<53>>, tz |-> <<43,48>>],
     [name |-> <<97,60,98>>, email |-> <<97>>, date |-> <<53>>, tz |-> <<43,48>>],
     [name |-> <<97,60,98>>, email |-> <<97,32,98>>, date |-> <<53>>, tz |-> <<43,48>>],
     [name |-> <<97,60,98>>, email |-> <<97,64,98>>, date |-> <<53>>, tz |-> <<43,48>>],
     [name |-> <<97,60,98>>, email |-> <<97,32,32,98>>, date |-> <<53>>, tz |-> <<43,48>>],
     [name |-> <<97,60,98>>, email |-> <<97,60,98>>, date |-> <<53>>, tz |-> <<43,48>>],
     [name |-> <<97,60,98>>, email |-> <<254>>, date |-> <<53>>, tz |-> <<43,48>>],
     [name |-> <<97,60,98>>, email |-> <<32>>, date |-> <<53>>, tz |-> <<43,48>>],
     [name |-> <<97,60,98>>, email |-> <<97,32>>, date |-> <<53>>, tz |-> <<43,48>>],
     [name |-> <<62,32,120>>, email |-> <<>>, date |-> <<53>>, tz |-> <<43,48>>],
     [name |-> <<62,32,120>>, email |-> <<97>>, date |-> <<53>>, tz |-> <<43,48>>],
     [name |-> <<62,32,120>>, email |-> <<97,32,98>>, date |-> <<53>>, tz |-> <<43,48>>],
     [name |-> <<62,32,120>>, email |-> <<97,64,98>>, date |-> <<53>>, tz |-> <<43,48>>],
     [name |-> <<62,32,120>>, email |-> <<97,32,32,98>>, date |-> <<53>>, tz |-> <<43,48>>],
     [name |-> <<62,32,120>>, email |-> <<97,60,98>>, date |-> <<53>>, tz |-> <<43,48>>],
     [name |-> <<62,32,120>>, email |-> <<254>>, date |-> <<53>>, tz |-> <<43,48>>],
     [name |-> <<62,32,120>>, email |-> <<32>>, date |-> <<53>>, tz |-> <<43,48>>],
     [name |-> <<62,32,120>>, email |-> <<97,32>>, date |-> <<53>>, tz |-> <<43,48>>],
     [name |-> <<255,195>>, email |-> <<>>, date |-> <<53>>, tz |-> <<43,48>>],
     [name |-> <<255,195>>, email |-> <<97>>, date |-> <<53>>, tz |-> <<43,48>>],
     [name |-> <<255,195>>, email |-> <<97,32,98>>, date |-> <<53>>, tz |-> <<43,48>>],
     [name |-> <<255,195>>, email |-> <<97,64,98>>, date |-> <<53>>, tz |-> <<43,48>>],
     [name |-> <<255,195>>, email |-> <<97,32,32,98>>, date |-> <<53>>, tz |-> <<43,48>>],
     [name |-> <<255,195>>, email |-> <<97,60,98>>, date |-> <<53>>, tz |-> <<43,48>>],
     [name |-> <<255,195>>, email |-> <<254>>, date |-> <<53>>, tz |-> <<43,48>>],
     [name |-> <<255,195>>, email |-> <<32>>, date |-> <<53>>, tz |-> <<43,48>>],
     [name |-> <<255,195>>, email |-> <<97,32>>, date |-> <<53>>, tz |-> <<43,48>>],
     [name |-> <<46>>, email |-> <<>>, date |-> <<53>>, tz |-> <<43,48>>],
     [name |-> <<46>>, email |-> <<97>>, date |-> <<53>>, tz |-> <<43,48>>],
     [name |-> <<46>>, email |-> <<97,32,98>>, date |-> <<53>>, tz |-> <<43,48>>],
     [name |-> <<46>>, email |-> <<97,64,98>>, date |-> <<53>>, tz |-> <<43,48>>],
     [name |-> <<46>>, email |-> <<97,32,32,98>>, date |-> <<53>>, tz |-> <<43,48>>],
     [name |-> <<46>>, email |-> <<97,60,98>>, date |-> <<53>>, tz |-> <<43,48>>],
     [name |-> <<46>>, email |-> <<254>>, date |-> <<53>>, tz |-> <<43,48>>],
     [name |-> <<46>>, email |-> <<32>>, date |-> <<53>>, tz |-> <<43,48>>],
     [name |-> <<46>>, email |-> <<97,32>>, date |-> <<53>>, tz |-> <<43,48>>],
     [name |-> <<65,32,66,32,67,32,68>>, email |-> <<>>, date |-> <<53>>, tz |-> <<43,48>>],
     [name |-> <<65,32,66,32,67,32,68>>, email |-> <<97>>, date |-> <<53>>, tz |-> <<43,48>>],
     [name |-> <<65,32,66,32,67,32,68>>, email |-> <<97,32,98>>, date |-> <<53>>, tz |-> <<43,48>>],
     [name |-> <<65,32,66,32,67,32,68>>, email |-> <<97,64,98>>, date |-> <<53>>, tz |-> <<43,48>>],
     [name |-> <<65,32,66,32,67,32,68>>, email |-> <<97,32,32,98>>, date |-> <<53>>, tz |-> <<43,48>>],
     [name |-> <<65,32,66,32,67,32,68>>, email |-> <<97,60,98>>, date |-> <<53>>, tz |-> <<43,48>>],
     [name |-> <<65,32,66,32,67,32,68>>, email |-> <<254>>, date |-> <<53>>, tz |-> <<43,48>>],
     [name |-> <<65,32,66,32,67,32,68>>, email |-> <<32>>, date |-> <<53>>, tz |-> <<43,48>>],
     [name |-> <<65,32,66,32,67,32,68>>, email |-> <<97,32>>, date |-> <<53>>, tz |-> <<43,48>>]}
MC_MaxParents ==
    0
MC_OptAuthor ==
    FALSE
MC_Encodings ==
    {}
MC_Tags ==
    {}
MC_MaxMergetags ==
    0
MC_Sigs ==
    {}
MC_Extras ==
    {}
MC_MaxExtras ==
    0
MC_Messages ==
    {<<109>>}
MC_Damages ==
    {"none"}
MC_DamageBytes ==
    {}
MC_RefLens ==
    {}
MC_Deltas ==
    {}
MC_Reframe ==
    FALSE
====
