---- MODULE MCLinks ----
\* Written by tools/genpools.py
EXTENDS GitObjects

MC_Kinds ==
    {"tree", "commit", "tag"}
MC_Contents ==
    {}
MC_Hashes ==
    {<<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>,
     <<9,9,9,9,9,9,9,9,9,9,9,9,9,9,9,9,9,9,9,9>>,
     <<10,10,10,10,10,10,10,10,10,10,10,10,10,10,10,10,10,10,10,10>>,
     <<13,13,13,13,13,13,13,13,13,13,13,13,13,13,13,13,13,13,13,13>>,
     <<32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32>>,
     <<48,48,48,48,48,48,48,48,48,48,48,48,48,48,48,48,48,48,48,48>>,
     <<60,60,60,60,60,60,60,60,60,60,60,60,60,60,60,60,60,60,60,60>>,
     <<65,65,65,65,65,65,65,65,65,65,65,65,65,65,65,65,65,65,65,65>>,
     <<97,97,97,97,97,97,97,97,97,97,97,97,97,97,97,97,97,97,97,97>>,
     <<127,127,127,127,127,127,127,127,127,127,127,127,127,127,127,127,127,127,127,127>>,
     <<128,128,128,128,128,128,128,128,128,128,128,128,128,128,128,128,128,128,128,128>>,
     <<255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255>>,
     <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>,
     <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>,
     <<236,237,238,239,240,241,242,243,244,245,246,247,248,249,250,251,252,253,254,255>>}
MC_Names ==
    {<<97>>,
     <<98>>}
MC_Modes ==
    {<<49,48,48,54,52,52>>}
MC_MaxEntries ==
    1
MC_Persons ==
    {[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]}
MC_MaxParents ==
    1
MC_OptAuthor ==
    FALSE
MC_Encodings ==
    {}
MC_Tags ==
    {[t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<109>>>>],
     [t |-> "tag", object |-> <<10,10,10,10,10,10,10,10,10,10,10,10,10,10,10,10,10,10,10,10>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<109>>>>],
     [t |-> "tag", object |-> <<32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<109>>>>],
     [t |-> "tag", object |-> <<65,65,65,65,65,65,65,65,65,65,65,65,65,65,65,65,65,65,65,65>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<109>>>>],
     [t |-> "tag", object |-> <<255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<109>>>>]}
MC_MaxMergetags ==
    0
MC_Sigs ==
    {}
MC_Extras ==
    {}
MC_MaxExtras ==
    0
MC_Messages ==
    {<<109>>}
MC_Damages ==
    {"none"}
MC_DamageBytes ==
    {}
MC_RefLens ==
    {}
MC_Deltas ==
    {}
MC_Reframe ==
    FALSE
====
