---- MODULE MCRefsT ----
\* Written by tools/genpools.py
EXTENDS GitObjects

MC_Kinds ==
    {"commit", "tag"}
MC_Contents ==
    {}
MC_Hashes ==
    {<<74,74,74,74,74,74,74,74,74,74,74,74,74,74,74,74,74,74,74,74>>,
     <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>}
MC_Names ==
    {}
MC_Modes ==
    {}
MC_MaxEntries ==
    0
MC_Persons ==
    {[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]}
MC_MaxParents ==
    2
MC_OptAuthor ==
    FALSE
MC_Encodings ==
    {}
MC_Tags ==
    {[t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<109,10>>>>]}
MC_MaxMergetags ==
    1
MC_Sigs ==
    {}
MC_Extras ==
    {}
MC_MaxExtras ==
    0
MC_Messages ==
    {<<109,10>>}
MC_Damages ==
    {"none", "stretch", "spoil"}
MC_DamageBytes ==
    (0..255) \ (48..57)
MC_RefLens ==
    (0..44) \cup {64, 80}
MC_Deltas ==
    {}
MC_Reframe ==
    TRUE
====
