---- MODULE MCEmbedT ----
\* Written by tools/genpools.py
EXTENDS GitObjects

MC_Kinds ==
    {"commit"}
MC_Contents ==
    {}
MC_Hashes ==
    {<<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>}
MC_Names ==
    {}
MC_Modes ==
    {}
MC_MaxEntries ==
    0
MC_Persons ==
    {[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]}
MC_MaxParents ==
    1
MC_OptAuthor ==
    FALSE
MC_Encodings ==
    {<<69>>}
MC_Tags ==
    {[t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<>>, message |-> <<<<>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<>>, message |-> <<<<10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<>>, message |-> <<<<97,10,10,32,98,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<97,10,10,32,98,10>>>>]}
MC_MaxMergetags ==
    3
MC_Sigs ==
    {<<45,45,45,45,45,66,69,71,73,78,32,80,71,80,32,83,73,71,78,65,84,85,82,69,45,45,45,45,45,10,10,105,81,10,61,97,98,10,45,45,45,45,45,69,78,68,32,80,71,80,32,83,73,71,78,65,84,85,82,69,45,45,45,45,45>>,
     <<45,45,45,45,45,66,69,71,73,78,32,80,71,80,32,83,73,71,78,65,84,85,82,69,45,45,45,45,45,10,86,101,114,115,105,111,110,58,32,71,10,10,105,81,10,45,45,45,45,45,69,78,68,32,80,71,80,32,83,73,71,78,65,84,85,82,69,45,45,45,45,45>>,
     <<45,45,45,45,45,66,69,71,73,78,32,80,71,80,32,83,73,71,78,65,84,85,82,69,45,45,45,45,45,10,10,45,45,45,45,45,69,78,68,32,80,71,80,32,83,73,71,78,65,84,85,82,69,45,45,45,45,45>>,
     <<45,45,45,45,45,66,69,71,73,78,32,80,71,80,32,83,73,71,78,65,84,85,82,69,45,45,45,45,45,10,67,111,109,109,101,110,116,58,32,45,45,45,45,45,69,78,68,10,10,116,114,101,101,32,120,10,32,45,45,45,45,45,69,78,68,32,80,71,80,32,83,73,71,78,65,84,85,82,69,45,45,45,45,45,10,45,45,45,45,45,69,78,68,32,80,71,80,32,83,73,71,78,65,84,85,82,69,45,45,45,45,45>>}
MC_Extras ==
    {[key |-> <<120>>, val |-> <<121>>],
     [key |-> <<122>>, val |-> <<49,10,50>>]}
MC_MaxExtras ==
    2
MC_Messages ==
    {<<109,10>>,
     <<>>,
     <<32,45,45,45,45,45,69,78,68,32,80,71,80,32,83,73,71,78,65,84,85,82,69,45,45,45,45,45,10>>}
MC_Damages ==
    {"none"}
MC_DamageBytes ==
    {}
MC_RefLens ==
    {}
MC_Deltas ==
    {}
MC_Reframe ==
    FALSE
====
