---- MODULE MCByteR ----
\* Written by tools/genpools.py
EXTENDS GitObjects

MC_Kinds ==
    {"blob", "tree", "commit", "tag"}
MC_Contents ==
    {<<97,98>>}
MC_Hashes ==
    {<<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>}
MC_Names ==
    {<<97>>}
MC_Modes ==
    {<<49,48,48,54,52,52>>}
MC_MaxEntries ==
    1
MC_Persons ==
    {[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]}
MC_MaxParents ==
    0
MC_OptAuthor ==
    FALSE
MC_Encodings ==
    {}
MC_Tags ==
    {[t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<109,10>>>>]}
MC_MaxMergetags ==
    0
MC_Sigs ==
    {}
MC_Extras ==
    {}
MC_MaxExtras ==
    0
MC_Messages ==
    {<<109,10>>}
MC_Damages ==
    {"none", "set", "insert", "delete"}
MC_DamageBytes ==
    {0, 10, 13, 32, 48, 60, 62, 65, 97, 255}
MC_RefLens ==
    {}
MC_Deltas ==
    {}
MC_Reframe ==
    TRUE
====
