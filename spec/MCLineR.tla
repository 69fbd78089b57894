---- MODULE MCLineR ----
\* Written by tools/genpools.py
EXTENDS GitObjects

MC_Kinds ==
    {"commit", "tag"}
MC_Contents ==
    {}
MC_Hashes ==
    {<<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>}
MC_Names ==
    {}
MC_Modes ==
    {}
MC_MaxEntries ==
    0
MC_Persons ==
    {[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]}
MC_MaxParents ==
    1
MC_OptAuthor ==
    FALSE
MC_Encodings ==
    {<<69>>}
MC_Tags ==
    {[t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<109,10>>>>]}
MC_MaxMergetags ==
    1
MC_Sigs ==
    {<<45,45,45,45,45,66,69,71,73,78,32,80,71,80,32,83,73,71,78,65,84,85,82,69,45,45,45,45,45,10,10,105,81,10,61,97,98,10,45,45,45,45,45,69,78,68,32,80,71,80,32,83,73,71,78,65,84,85,82,69,45,45,45,45,45>>}
MC_Extras ==
    {[key |-> <<120>>, val |-> <<121>>]}
MC_MaxExtras ==
    1
MC_Messages ==
    {<<109,10>>}
MC_Damages ==
    {"dropline", "dupline", "swapline", "cutline"}
MC_DamageBytes ==
    {}
MC_RefLens ==
    {}
MC_Deltas ==
    {}
MC_Reframe ==
    TRUE
====
