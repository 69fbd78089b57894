---- MODULE MCTagT ----
\* Written by tools/genpools.py
EXTENDS GitObjects

MC_Kinds ==
    {"tag"}
MC_Contents ==
    {}
MC_Hashes ==
    {<<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>}
MC_Names ==
    {}
MC_Modes ==
    {}
MC_MaxEntries ==
    0
MC_Persons ==
    {[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]}
MC_MaxParents ==
    0
MC_OptAuthor ==
    FALSE
MC_Encodings ==
    {}
MC_Tags ==
    {[t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118,49>>, tagger |-> <<>>, message |-> <<>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118,49>>, tagger |-> <<>>, message |-> <<<<109>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118,49>>, tagger |-> <<>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118,49>>, tagger |-> <<>>, message |-> <<<<10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118,49>>, tagger |-> <<>>, message |-> <<<<10,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118,49>>, tagger |-> <<>>, message |-> <<<<32>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118,49>>, tagger |-> <<>>, message |-> <<<<32,109,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118,49>>, tagger |-> <<>>, message |-> <<<<109,13,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118,49>>, tagger |-> <<>>, message |-> <<<<116,114,101,101,32,120,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118,49>>, tagger |-> <<>>, message |-> <<<<10,109>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118,49>>, tagger |-> <<>>, message |-> <<<<255,0,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118,49>>, tagger |-> <<>>, message |-> <<<<111,98,106,101,99,116,32,120,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118,49>>, tagger |-> <<>>, message |-> <<<<97,10,10,98,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118,49>>, tagger |-> <<>>, message |-> <<<<103,112,103,115,105,103,32,45,45,45,45,45,66,69,71,73,78,32,80,71,80,32,83,73,71,78,65,84,85,82,69,45,45,45,45,45,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<109>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<10,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<32>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<32,109,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<109,13,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<116,114,101,101,32,120,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<10,109>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<255,0,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<111,98,106,101,99,116,32,120,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<97,10,10,98,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<103,112,103,115,105,103,32,45,45,45,45,45,66,69,71,73,78,32,80,71,80,32,83,73,71,78,65,84,85,82,69,45,45,45,45,45,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<109>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<10,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<32>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<32,109,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<109,13,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<116,114,101,101,32,120,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<10,109>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<255,0,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<111,98,106,101,99,116,32,120,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<97,10,10,98,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<103,112,103,115,105,103,32,45,45,45,45,45,66,69,71,73,78,32,80,71,80,32,83,73,71,78,65,84,85,82,69,45,45,45,45,45,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<109>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<10,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<32>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<32,109,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<109,13,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<116,114,101,101,32,120,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<10,109>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<255,0,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<111,98,106,101,99,116,32,120,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<97,10,10,98,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<103,112,103,115,105,103,32,45,45,45,45,45,66,69,71,73,78,32,80,71,80,32,83,73,71,78,65,84,85,82,69,45,45,45,45,45,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<>>, tagger |-> <<>>, message |-> <<>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<>>, tagger |-> <<>>, message |-> <<<<109>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<>>, tagger |-> <<>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<>>, tagger |-> <<>>, message |-> <<<<10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<>>, tagger |-> <<>>, message |-> <<<<10,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<>>, tagger |-> <<>>, message |-> <<<<32>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<>>, tagger |-> <<>>, message |-> <<<<32,109,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<>>, tagger |-> <<>>, message |-> <<<<109,13,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<>>, tagger |-> <<>>, message |-> <<<<116,114,101,101,32,120,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<>>, tagger |-> <<>>, message |-> <<<<10,109>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<>>, tagger |-> <<>>, message |-> <<<<255,0,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<>>, tagger |-> <<>>, message |-> <<<<111,98,106,101,99,116,32,120,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<>>, tagger |-> <<>>, message |-> <<<<97,10,10,98,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<>>, tagger |-> <<>>, message |-> <<<<103,112,103,115,105,103,32,45,45,45,45,45,66,69,71,73,78,32,80,71,80,32,83,73,71,78,65,84,85,82,69,45,45,45,45,45,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<109>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<10,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<32>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<32,109,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<109,13,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<116,114,101,101,32,120,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<10,109>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<255,0,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<111,98,106,101,99,116,32,120,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<97,10,10,98,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<103,112,103,115,105,103,32,45,45,45,45,45,66,69,71,73,78,32,80,71,80,32,83,73,71,78,65,84,85,82,69,45,45,45,45,45,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<109>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<10,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<32>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<32,109,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<109,13,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<116,114,101,101,32,120,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<10,109>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<255,0,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<111,98,106,101,99,116,32,120,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<97,10,10,98,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<103,112,103,115,105,103,32,45,45,45,45,45,66,69,71,73,78,32,80,71,80,32,83,73,71,78,65,84,85,82,69,45,45,45,45,45,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<109>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<10,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<32>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<32,109,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<109,13,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<116,114,101,101,32,120,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<10,109>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<255,0,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<111,98,106,101,99,116,32,120,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<97,10,10,98,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<103,112,103,115,105,103,32,45,45,45,45,45,66,69,71,73,78,32,80,71,80,32,83,73,71,78,65,84,85,82,69,45,45,45,45,45,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<32>>, tagger |-> <<>>, message |-> <<>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<32>>, tagger |-> <<>>, message |-> <<<<109>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<32>>, tagger |-> <<>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<32>>, tagger |-> <<>>, message |-> <<<<10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<32>>, tagger |-> <<>>, message |-> <<<<10,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<32>>, tagger |-> <<>>, message |-> <<<<32>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<32>>, tagger |-> <<>>, message |-> <<<<32,109,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<32>>, tagger |-> <<>>, message |-> <<<<109,13,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<32>>, tagger |-> <<>>, message |-> <<<<116,114,101,101,32,120,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<32>>, tagger |-> <<>>, message |-> <<<<10,109>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<32>>, tagger |-> <<>>, message |-> <<<<255,0,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<32>>, tagger |-> <<>>, message |-> <<<<111,98,106,101,99,116,32,120,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<32>>, tagger |-> <<>>, message |-> <<<<97,10,10,98,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<32>>, tagger |-> <<>>, message |-> <<<<103,112,103,115,105,103,32,45,45,45,45,45,66,69,71,73,78,32,80,71,80,32,83,73,71,78,65,84,85,82,69,45,45,45,45,45,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<109>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<10,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<32>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<32,109,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<109,13,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<116,114,101,101,32,120,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<10,109>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<255,0,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<111,98,106,101,99,116,32,120,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<97,10,10,98,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<103,112,103,115,105,103,32,45,45,45,45,45,66,69,71,73,78,32,80,71,80,32,83,73,71,78,65,84,85,82,69,45,45,45,45,45,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<109>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<10,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<32>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<32,109,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<109,13,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<116,114,101,101,32,120,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<10,109>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<255,0,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<111,98,106,101,99,116,32,120,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<97,10,10,98,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<103,112,103,115,105,103,32,45,45,45,45,45,66,69,71,73,78,32,80,71,80,32,83,73,71,78,65,84,85,82,69,45,45,45,45,45,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<32>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<32>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<109>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<32>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<32>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<32>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<10,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<32>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<32>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<32>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<32,109,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<32>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<109,13,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<32>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<116,114,101,101,32,120,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<32>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<10,109>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<32>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<255,0,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<32>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<111,98,106,101,99,116,32,120,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<32>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<97,10,10,98,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<32>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<103,112,103,115,105,103,32,45,45,45,45,45,66,69,71,73,78,32,80,71,80,32,83,73,71,78,65,84,85,82,69,45,45,45,45,45,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<13>>, tagger |-> <<>>, message |-> <<>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<13>>, tagger |-> <<>>, message |-> <<<<109>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<13>>, tagger |-> <<>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<13>>, tagger |-> <<>>, message |-> <<<<10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<13>>, tagger |-> <<>>, message |-> <<<<10,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<13>>, tagger |-> <<>>, message |-> <<<<32>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<13>>, tagger |-> <<>>, message |-> <<<<32,109,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<13>>, tagger |-> <<>>, message |-> <<<<109,13,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<13>>, tagger |-> <<>>, message |-> <<<<116,114,101,101,32,120,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<13>>, tagger |-> <<>>, message |-> <<<<10,109>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<13>>, tagger |-> <<>>, message |-> <<<<255,0,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<13>>, tagger |-> <<>>, message |-> <<<<111,98,106,101,99,116,32,120,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<13>>, tagger |-> <<>>, message |-> <<<<97,10,10,98,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<13>>, tagger |-> <<>>, message |-> <<<<103,112,103,115,105,103,32,45,45,45,45,45,66,69,71,73,78,32,80,71,80,32,83,73,71,78,65,84,85,82,69,45,45,45,45,45,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<109>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<10,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<32>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<32,109,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<109,13,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<116,114,101,101,32,120,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<10,109>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<255,0,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<111,98,106,101,99,116,32,120,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<97,10,10,98,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<103,112,103,115,105,103,32,45,45,45,45,45,66,69,71,73,78,32,80,71,80,32,83,73,71,78,65,84,85,82,69,45,45,45,45,45,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<109>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<10,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<32>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<32,109,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<109,13,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<116,114,101,101,32,120,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<10,109>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<255,0,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<111,98,106,101,99,116,32,120,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<97,10,10,98,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<103,112,103,115,105,103,32,45,45,45,45,45,66,69,71,73,78,32,80,71,80,32,83,73,71,78,65,84,85,82,69,45,45,45,45,45,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<13>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<13>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<109>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<13>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<13>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<13>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<10,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<13>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<32>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<13>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<32,109,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<13>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<109,13,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<13>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<116,114,101,101,32,120,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<13>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<10,109>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<13>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<255,0,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<13>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<111,98,106,101,99,116,32,120,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<13>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<97,10,10,98,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<13>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<103,112,103,115,105,103,32,45,45,45,45,45,66,69,71,73,78,32,80,71,80,32,83,73,71,78,65,84,85,82,69,45,45,45,45,45,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<118,49>>, tagger |-> <<>>, message |-> <<>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<118,49>>, tagger |-> <<>>, message |-> <<<<109>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<118,49>>, tagger |-> <<>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<118,49>>, tagger |-> <<>>, message |-> <<<<10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<118,49>>, tagger |-> <<>>, message |-> <<<<10,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<118,49>>, tagger |-> <<>>, message |-> <<<<32>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<118,49>>, tagger |-> <<>>, message |-> <<<<32,109,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<118,49>>, tagger |-> <<>>, message |-> <<<<109,13,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<118,49>>, tagger |-> <<>>, message |-> <<<<116,114,101,101,32,120,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<118,49>>, tagger |-> <<>>, message |-> <<<<10,109>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<118,49>>, tagger |-> <<>>, message |-> <<<<255,0,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<118,49>>, tagger |-> <<>>, message |-> <<<<111,98,106,101,99,116,32,120,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<118,49>>, tagger |-> <<>>, message |-> <<<<97,10,10,98,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<118,49>>, tagger |-> <<>>, message |-> <<<<103,112,103,115,105,103,32,45,45,45,45,45,66,69,71,73,78,32,80,71,80,32,83,73,71,78,65,84,85,82,69,45,45,45,45,45,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<109>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<10,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<32>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<32,109,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<109,13,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<116,114,101,101,32,120,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<10,109>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<255,0,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<111,98,106,101,99,116,32,120,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<97,10,10,98,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<103,112,103,115,105,103,32,45,45,45,45,45,66,69,71,73,78,32,80,71,80,32,83,73,71,78,65,84,85,82,69,45,45,45,45,45,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<109>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<10,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<32>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<32,109,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<109,13,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<116,114,101,101,32,120,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<10,109>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<255,0,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<111,98,106,101,99,116,32,120,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<97,10,10,98,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<103,112,103,115,105,103,32,45,45,45,45,45,66,69,71,73,78,32,80,71,80,32,83,73,71,78,65,84,85,82,69,45,45,45,45,45,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<109>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<10,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<32>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<32,109,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<109,13,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<116,114,101,101,32,120,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<10,109>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<255,0,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<111,98,106,101,99,116,32,120,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<97,10,10,98,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<103,112,103,115,105,103,32,45,45,45,45,45,66,69,71,73,78,32,80,71,80,32,83,73,71,78,65,84,85,82,69,45,45,45,45,45,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<>>, tagger |-> <<>>, message |-> <<>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<>>, tagger |-> <<>>, message |-> <<<<109>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<>>, tagger |-> <<>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<>>, tagger |-> <<>>, message |-> <<<<10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<>>, tagger |-> <<>>, message |-> <<<<10,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<>>, tagger |-> <<>>, message |-> <<<<32>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<>>, tagger |-> <<>>, message |-> <<<<32,109,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<>>, tagger |-> <<>>, message |-> <<<<109,13,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<>>, tagger |-> <<>>, message |-> <<<<116,114,101,101,32,120,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<>>, tagger |-> <<>>, message |-> <<<<10,109>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<>>, tagger |-> <<>>, message |-> <<<<255,0,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<>>, tagger |-> <<>>, message |-> <<<<111,98,106,101,99,116,32,120,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<>>, tagger |-> <<>>, message |-> <<<<97,10,10,98,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<>>, tagger |-> <<>>, message |-> <<<<103,112,103,115,105,103,32,45,45,45,45,45,66,69,71,73,78,32,80,71,80,32,83,73,71,78,65,84,85,82,69,45,45,45,45,45,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<109>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<10,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<32>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<32,109,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<109,13,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<116,114,101,101,32,120,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<10,109>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<255,0,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<111,98,106,101,99,116,32,120,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<97,10,10,98,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<103,112,103,115,105,103,32,45,45,45,45,45,66,69,71,73,78,32,80,71,80,32,83,73,71,78,65,84,85,82,69,45,45,45,45,45,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<109>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<10,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<32>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<32,109,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<109,13,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<116,114,101,101,32,120,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<10,109>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<255,0,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<111,98,106,101,99,116,32,120,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<97,10,10,98,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<103,112,103,115,105,103,32,45,45,45,45,45,66,69,71,73,78,32,80,71,80,32,83,73,71,78,65,84,85,82,69,45,45,45,45,45,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<109>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<10,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<32>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<32,109,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<109,13,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<116,114,101,101,32,120,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<10,109>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<255,0,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<111,98,106,101,99,116,32,120,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<97,10,10,98,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<103,112,103,115,105,103,32,45,45,45,45,45,66,69,71,73,78,32,80,71,80,32,83,73,71,78,65,84,85,82,69,45,45,45,45,45,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<32>>, tagger |-> <<>>, message |-> <<>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<32>>, tagger |-> <<>>, message |-> <<<<109>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<32>>, tagger |-> <<>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<32>>, tagger |-> <<>>, message |-> <<<<10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<32>>, tagger |-> <<>>, message |-> <<<<10,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<32>>, tagger |-> <<>>, message |-> <<<<32>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<32>>, tagger |-> <<>>, message |-> <<<<32,109,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<32>>, tagger |-> <<>>, message |-> <<<<109,13,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<32>>, tagger |-> <<>>, message |-> <<<<116,114,101,101,32,120,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<32>>, tagger |-> <<>>, message |-> <<<<10,109>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<32>>, tagger |-> <<>>, message |-> <<<<255,0,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<32>>, tagger |-> <<>>, message |-> <<<<111,98,106,101,99,116,32,120,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<32>>, tagger |-> <<>>, message |-> <<<<97,10,10,98,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<32>>, tagger |-> <<>>, message |-> <<<<103,112,103,115,105,103,32,45,45,45,45,45,66,69,71,73,78,32,80,71,80,32,83,73,71,78,65,84,85,82,69,45,45,45,45,45,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<109>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<10,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<32>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<32,109,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<109,13,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<116,114,101,101,32,120,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<10,109>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<255,0,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<111,98,106,101,99,116,32,120,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<97,10,10,98,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<103,112,103,115,105,103,32,45,45,45,45,45,66,69,71,73,78,32,80,71,80,32,83,73,71,78,65,84,85,82,69,45,45,45,45,45,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<109>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<10,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<32>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<32,109,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<109,13,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<116,114,101,101,32,120,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<10,109>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<255,0,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<111,98,106,101,99,116,32,120,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<97,10,10,98,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<103,112,103,115,105,103,32,45,45,45,45,45,66,69,71,73,78,32,80,71,80,32,83,73,71,78,65,84,85,82,69,45,45,45,45,45,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<32>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<32>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<109>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<32>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<32>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<32>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<10,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<32>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<32>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<32>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<32,109,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<32>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<109,13,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<32>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<116,114,101,101,32,120,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<32>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<10,109>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<32>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<255,0,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<32>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<111,98,106,101,99,116,32,120,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<32>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<97,10,10,98,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<32>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<103,112,103,115,105,103,32,45,45,45,45,45,66,69,71,73,78,32,80,71,80,32,83,73,71,78,65,84,85,82,69,45,45,45,45,45,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<13>>, tagger |-> <<>>, message |-> <<>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<13>>, tagger |-> <<>>, message |-> <<<<109>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<13>>, tagger |-> <<>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<13>>, tagger |-> <<>>, message |-> <<<<10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<13>>, tagger |-> <<>>, message |-> <<<<10,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<13>>, tagger |-> <<>>, message |-> <<<<32>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<13>>, tagger |-> <<>>, message |-> <<<<32,109,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<13>>, tagger |-> <<>>, message |-> <<<<109,13,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<13>>, tagger |-> <<>>, message |-> <<<<116,114,101,101,32,120,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<13>>, tagger |-> <<>>, message |-> <<<<10,109>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<13>>, tagger |-> <<>>, message |-> <<<<255,0,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<13>>, tagger |-> <<>>, message |-> <<<<111,98,106,101,99,116,32,120,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<13>>, tagger |-> <<>>, message |-> <<<<97,10,10,98,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<13>>, tagger |-> <<>>, message |-> <<<<103,112,103,115,105,103,32,45,45,45,45,45,66,69,71,73,78,32,80,71,80,32,83,73,71,78,65,84,85,82,69,45,45,45,45,45,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<109>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<10,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<32>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<32,109,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<109,13,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<116,114,101,101,32,120,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<10,109>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<255,0,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<111,98,106,101,99,116,32,120,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<97,10,10,98,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<103,112,103,115,105,103,32,45,45,45,45,45,66,69,71,73,78,32,80,71,80,32,83,73,71,78,65,84,85,82,69,45,45,45,45,45,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<109>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<10,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<32>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<32,109,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<109,13,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<116,114,101,101,32,120,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<10,109>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<255,0,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<111,98,106,101,99,116,32,120,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<97,10,10,98,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<103,112,103,115,105,103,32,45,45,45,45,45,66,69,71,73,78,32,80,71,80,32,83,73,71,78,65,84,85,82,69,45,45,45,45,45,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<13>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<13>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<109>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<13>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<13>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<13>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<10,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<13>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<32>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<13>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<32,109,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<13>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<109,13,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<13>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<116,114,101,101,32,120,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<13>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<10,109>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<13>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<255,0,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<13>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<111,98,106,101,99,116,32,120,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<13>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<97,10,10,98,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<>>, tag |-> <<13>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<103,112,103,115,105,103,32,45,45,45,45,45,66,69,71,73,78,32,80,71,80,32,83,73,71,78,65,84,85,82,69,45,45,45,45,45,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<118,49>>, tagger |-> <<>>, message |-> <<>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<118,49>>, tagger |-> <<>>, message |-> <<<<109>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<118,49>>, tagger |-> <<>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<118,49>>, tagger |-> <<>>, message |-> <<<<10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<118,49>>, tagger |-> <<>>, message |-> <<<<10,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<118,49>>, tagger |-> <<>>, message |-> <<<<32>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<118,49>>, tagger |-> <<>>, message |-> <<<<32,109,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<118,49>>, tagger |-> <<>>, message |-> <<<<109,13,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<118,49>>, tagger |-> <<>>, message |-> <<<<116,114,101,101,32,120,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<118,49>>, tagger |-> <<>>, message |-> <<<<10,109>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<118,49>>, tagger |-> <<>>, message |-> <<<<255,0,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<118,49>>, tagger |-> <<>>, message |-> <<<<111,98,106,101,99,116,32,120,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<118,49>>, tagger |-> <<>>, message |-> <<<<97,10,10,98,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<118,49>>, tagger |-> <<>>, message |-> <<<<103,112,103,115,105,103,32,45,45,45,45,45,66,69,71,73,78,32,80,71,80,32,83,73,71,78,65,84,85,82,69,45,45,45,45,45,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<109>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<10,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<32>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<32,109,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<109,13,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<116,114,101,101,32,120,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<10,109>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<255,0,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<111,98,106,101,99,116,32,120,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<97,10,10,98,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<103,112,103,115,105,103,32,45,45,45,45,45,66,69,71,73,78,32,80,71,80,32,83,73,71,78,65,84,85,82,69,45,45,45,45,45,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<109>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<10,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<32>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<32,109,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<109,13,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<116,114,101,101,32,120,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<10,109>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<255,0,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<111,98,106,101,99,116,32,120,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<97,10,10,98,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<103,112,103,115,105,103,32,45,45,45,45,45,66,69,71,73,78,32,80,71,80,32,83,73,71,78,65,84,85,82,69,45,45,45,45,45,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<109>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<10,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<32>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<32,109,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<109,13,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<116,114,101,101,32,120,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<10,109>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<255,0,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<111,98,106,101,99,116,32,120,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<97,10,10,98,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<103,112,103,115,105,103,32,45,45,45,45,45,66,69,71,73,78,32,80,71,80,32,83,73,71,78,65,84,85,82,69,45,45,45,45,45,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<>>, tagger |-> <<>>, message |-> <<>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<>>, tagger |-> <<>>, message |-> <<<<109>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<>>, tagger |-> <<>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<>>, tagger |-> <<>>, message |-> <<<<10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<>>, tagger |-> <<>>, message |-> <<<<10,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<>>, tagger |-> <<>>, message |-> <<<<32>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<>>, tagger |-> <<>>, message |-> <<<<32,109,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<>>, tagger |-> <<>>, message |-> <<<<109,13,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<>>, tagger |-> <<>>, message |-> <<<<116,114,101,101,32,120,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<>>, tagger |-> <<>>, message |-> <<<<10,109>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<>>, tagger |-> <<>>, message |-> <<<<255,0,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<>>, tagger |-> <<>>, message |-> <<<<111,98,106,101,99,116,32,120,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<>>, tagger |-> <<>>, message |-> <<<<97,10,10,98,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<>>, tagger |-> <<>>, message |-> <<<<103,112,103,115,105,103,32,45,45,45,45,45,66,69,71,73,78,32,80,71,80,32,83,73,71,78,65,84,85,82,69,45,45,45,45,45,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<109>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<10,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<32>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<32,109,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<109,13,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<116,114,101,101,32,120,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<10,109>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<255,0,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<111,98,106,101,99,116,32,120,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<97,10,10,98,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<103,112,103,115,105,103,32,45,45,45,45,45,66,69,71,73,78,32,80,71,80,32,83,73,71,78,65,84,85,82,69,45,45,45,45,45,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<109>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<10,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<32>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<32,109,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<109,13,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<116,114,101,101,32,120,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<10,109>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<255,0,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<111,98,106,101,99,116,32,120,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<97,10,10,98,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<103,112,103,115,105,103,32,45,45,45,45,45,66,69,71,73,78,32,80,71,80,32,83,73,71,78,65,84,85,82,69,45,45,45,45,45,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<109>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<10,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<32>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<32,109,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<109,13,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<116,114,101,101,32,120,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<10,109>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<255,0,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<111,98,106,101,99,116,32,120,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<97,10,10,98,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<103,112,103,115,105,103,32,45,45,45,45,45,66,69,71,73,78,32,80,71,80,32,83,73,71,78,65,84,85,82,69,45,45,45,45,45,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<32>>, tagger |-> <<>>, message |-> <<>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<32>>, tagger |-> <<>>, message |-> <<<<109>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<32>>, tagger |-> <<>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<32>>, tagger |-> <<>>, message |-> <<<<10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<32>>, tagger |-> <<>>, message |-> <<<<10,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<32>>, tagger |-> <<>>, message |-> <<<<32>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<32>>, tagger |-> <<>>, message |-> <<<<32,109,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<32>>, tagger |-> <<>>, message |-> <<<<109,13,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<32>>, tagger |-> <<>>, message |-> <<<<116,114,101,101,32,120,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<32>>, tagger |-> <<>>, message |-> <<<<10,109>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<32>>, tagger |-> <<>>, message |-> <<<<255,0,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<32>>, tagger |-> <<>>, message |-> <<<<111,98,106,101,99,116,32,120,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<32>>, tagger |-> <<>>, message |-> <<<<97,10,10,98,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<32>>, tagger |-> <<>>, message |-> <<<<103,112,103,115,105,103,32,45,45,45,45,45,66,69,71,73,78,32,80,71,80,32,83,73,71,78,65,84,85,82,69,45,45,45,45,45,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<109>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<10,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<32>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<32,109,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<109,13,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<116,114,101,101,32,120,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<10,109>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<255,0,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<111,98,106,101,99,116,32,120,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<97,10,10,98,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<103,112,103,115,105,103,32,45,45,45,45,45,66,69,71,73,78,32,80,71,80,32,83,73,71,78,65,84,85,82,69,45,45,45,45,45,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<109>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<10,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<32>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<32,109,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<109,13,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<116,114,101,101,32,120,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<10,109>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<255,0,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<111,98,106,101,99,116,32,120,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<97,10,10,98,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<103,112,103,115,105,103,32,45,45,45,45,45,66,69,71,73,78,32,80,71,80,32,83,73,71,78,65,84,85,82,69,45,45,45,45,45,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<32>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<32>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<109>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<32>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<32>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<32>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<10,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<32>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<32>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<32>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<32,109,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<32>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<109,13,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<32>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<116,114,101,101,32,120,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<32>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<10,109>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<32>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<255,0,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<32>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<111,98,106,101,99,116,32,120,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<32>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<97,10,10,98,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<32>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<103,112,103,115,105,103,32,45,45,45,45,45,66,69,71,73,78,32,80,71,80,32,83,73,71,78,65,84,85,82,69,45,45,45,45,45,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<13>>, tagger |-> <<>>, message |-> <<>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<13>>, tagger |-> <<>>, message |-> <<<<109>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<13>>, tagger |-> <<>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<13>>, tagger |-> <<>>, message |-> <<<<10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<13>>, tagger |-> <<>>, message |-> <<<<10,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<13>>, tagger |-> <<>>, message |-> <<<<32>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<13>>, tagger |-> <<>>, message |-> <<<<32,109,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<13>>, tagger |-> <<>>, message |-> <<<<109,13,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<13>>, tagger |-> <<>>, message |-> <<<<116,114,101,101,32,120,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<13>>, tagger |-> <<>>, message |-> <<<<10,109>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<13>>, tagger |-> <<>>, message |-> <<<<255,0,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<13>>, tagger |-> <<>>, message |-> <<<<111,98,106,101,99,116,32,120,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<13>>, tagger |-> <<>>, message |-> <<<<97,10,10,98,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<13>>, tagger |-> <<>>, message |-> <<<<103,112,103,115,105,103,32,45,45,45,45,45,66,69,71,73,78,32,80,71,80,32,83,73,71,78,65,84,85,82,69,45,45,45,45,45,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<109>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<10,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<32>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<32,109,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<109,13,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<116,114,101,101,32,120,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<10,109>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<255,0,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<111,98,106,101,99,116,32,120,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<97,10,10,98,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<103,112,103,115,105,103,32,45,45,45,45,45,66,69,71,73,78,32,80,71,80,32,83,73,71,78,65,84,85,82,69,45,45,45,45,45,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<109>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<10,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<32>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<32,109,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<109,13,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<116,114,101,101,32,120,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<10,109>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<255,0,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<111,98,106,101,99,116,32,120,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<97,10,10,98,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<103,112,103,115,105,103,32,45,45,45,45,45,66,69,71,73,78,32,80,71,80,32,83,73,71,78,65,84,85,82,69,45,45,45,45,45,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<13>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<13>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<109>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<13>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<13>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<13>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<10,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<13>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<32>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<13>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<32,109,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<13>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<109,13,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<13>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<116,114,101,101,32,120,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<13>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<10,109>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<13>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<255,0,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<13>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<111,98,106,101,99,116,32,120,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<13>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<97,10,10,98,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<98,108,111,98>>, tag |-> <<13>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<103,112,103,115,105,103,32,45,45,45,45,45,66,69,71,73,78,32,80,71,80,32,83,73,71,78,65,84,85,82,69,45,45,45,45,45,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<118,49>>, tagger |-> <<>>, message |-> <<>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<118,49>>, tagger |-> <<>>, message |-> <<<<109>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<118,49>>, tagger |-> <<>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<118,49>>, tagger |-> <<>>, message |-> <<<<10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<118,49>>, tagger |-> <<>>, message |-> <<<<10,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<118,49>>, tagger |-> <<>>, message |-> <<<<32>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<118,49>>, tagger |-> <<>>, message |-> <<<<32,109,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<118,49>>, tagger |-> <<>>, message |-> <<<<109,13,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<118,49>>, tagger |-> <<>>, message |-> <<<<116,114,101,101,32,120,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<118,49>>, tagger |-> <<>>, message |-> <<<<10,109>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<118,49>>, tagger |-> <<>>, message |-> <<<<255,0,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<118,49>>, tagger |-> <<>>, message |-> <<<<111,98,106,101,99,116,32,120,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<118,49>>, tagger |-> <<>>, message |-> <<<<97,10,10,98,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<118,49>>, tagger |-> <<>>, message |-> <<<<103,112,103,115,105,103,32,45,45,45,45,45,66,69,71,73,78,32,80,71,80,32,83,73,71,78,65,84,85,82,69,45,45,45,45,45,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<109>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<10,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<32>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<32,109,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<109,13,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<116,114,101,101,32,120,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<10,109>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<255,0,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<111,98,106,101,99,116,32,120,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<97,10,10,98,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<103,112,103,115,105,103,32,45,45,45,45,45,66,69,71,73,78,32,80,71,80,32,83,73,71,78,65,84,85,82,69,45,45,45,45,45,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<109>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<10,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<32>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<32,109,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<109,13,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<116,114,101,101,32,120,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<10,109>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<255,0,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<111,98,106,101,99,116,32,120,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<97,10,10,98,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<103,112,103,115,105,103,32,45,45,45,45,45,66,69,71,73,78,32,80,71,80,32,83,73,71,78,65,84,85,82,69,45,45,45,45,45,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<109>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<10,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<32>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<32,109,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<109,13,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<116,114,101,101,32,120,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<10,109>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<255,0,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<111,98,106,101,99,116,32,120,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<97,10,10,98,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<103,112,103,115,105,103,32,45,45,45,45,45,66,69,71,73,78,32,80,71,80,32,83,73,71,78,65,84,85,82,69,45,45,45,45,45,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<>>, tagger |-> <<>>, message |-> <<>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<>>, tagger |-> <<>>, message |-> <<<<109>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<>>, tagger |-> <<>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<>>, tagger |-> <<>>, message |-> <<<<10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<>>, tagger |-> <<>>, message |-> <<<<10,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<>>, tagger |-> <<>>, message |-> <<<<32>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<>>, tagger |-> <<>>, message |-> <<<<32,109,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<>>, tagger |-> <<>>, message |-> <<<<109,13,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<>>, tagger |-> <<>>, message |-> <<<<116,114,101,101,32,120,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<>>, tagger |-> <<>>, message |-> <<<<10,109>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<>>, tagger |-> <<>>, message |-> <<<<255,0,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<>>, tagger |-> <<>>, message |-> <<<<111,98,106,101,99,116,32,120,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<>>, tagger |-> <<>>, message |-> <<<<97,10,10,98,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<>>, tagger |-> <<>>, message |-> <<<<103,112,103,115,105,103,32,45,45,45,45,45,66,69,71,73,78,32,80,71,80,32,83,73,71,78,65,84,85,82,69,45,45,45,45,45,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<109>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<10,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<32>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<32,109,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<109,13,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<116,114,101,101,32,120,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<10,109>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<255,0,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<111,98,106,101,99,116,32,120,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<97,10,10,98,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<103,112,103,115,105,103,32,45,45,45,45,45,66,69,71,73,78,32,80,71,80,32,83,73,71,78,65,84,85,82,69,45,45,45,45,45,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<109>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<10,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<32>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<32,109,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<109,13,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<116,114,101,101,32,120,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<10,109>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<255,0,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<111,98,106,101,99,116,32,120,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<97,10,10,98,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<103,112,103,115,105,103,32,45,45,45,45,45,66,69,71,73,78,32,80,71,80,32,83,73,71,78,65,84,85,82,69,45,45,45,45,45,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<109>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<10,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<32>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<32,109,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<109,13,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<116,114,101,101,32,120,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<10,109>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<255,0,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<111,98,106,101,99,116,32,120,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<97,10,10,98,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<103,112,103,115,105,103,32,45,45,45,45,45,66,69,71,73,78,32,80,71,80,32,83,73,71,78,65,84,85,82,69,45,45,45,45,45,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<32>>, tagger |-> <<>>, message |-> <<>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<32>>, tagger |-> <<>>, message |-> <<<<109>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<32>>, tagger |-> <<>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<32>>, tagger |-> <<>>, message |-> <<<<10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<32>>, tagger |-> <<>>, message |-> <<<<10,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<32>>, tagger |-> <<>>, message |-> <<<<32>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<32>>, tagger |-> <<>>, message |-> <<<<32,109,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<32>>, tagger |-> <<>>, message |-> <<<<109,13,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<32>>, tagger |-> <<>>, message |-> <<<<116,114,101,101,32,120,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<32>>, tagger |-> <<>>, message |-> <<<<10,109>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<32>>, tagger |-> <<>>, message |-> <<<<255,0,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<32>>, tagger |-> <<>>, message |-> <<<<111,98,106,101,99,116,32,120,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<32>>, tagger |-> <<>>, message |-> <<<<97,10,10,98,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<32>>, tagger |-> <<>>, message |-> <<<<103,112,103,115,105,103,32,45,45,45,45,45,66,69,71,73,78,32,80,71,80,32,83,73,71,78,65,84,85,82,69,45,45,45,45,45,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<109>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<10,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<32>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<32,109,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<109,13,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<116,114,101,101,32,120,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<10,109>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<255,0,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<111,98,106,101,99,116,32,120,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<97,10,10,98,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<103,112,103,115,105,103,32,45,45,45,45,45,66,69,71,73,78,32,80,71,80,32,83,73,71,78,65,84,85,82,69,45,45,45,45,45,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<109>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<10,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<32>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<32,109,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<109,13,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<116,114,101,101,32,120,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<10,109>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<255,0,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<111,98,106,101,99,116,32,120,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<97,10,10,98,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<103,112,103,115,105,103,32,45,45,45,45,45,66,69,71,73,78,32,80,71,80,32,83,73,71,78,65,84,85,82,69,45,45,45,45,45,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<32>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<32>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<109>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<32>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<32>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<32>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<10,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<32>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<32>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<32>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<32,109,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<32>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<109,13,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<32>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<116,114,101,101,32,120,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<32>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<10,109>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<32>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<255,0,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<32>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<111,98,106,101,99,116,32,120,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<32>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<97,10,10,98,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<32>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<103,112,103,115,105,103,32,45,45,45,45,45,66,69,71,73,78,32,80,71,80,32,83,73,71,78,65,84,85,82,69,45,45,45,45,45,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<13>>, tagger |-> <<>>, message |-> <<>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<13>>, tagger |-> <<>>, message |-> <<<<109>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<13>>, tagger |-> <<>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<13>>, tagger |-> <<>>, message |-> <<<<10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<13>>, tagger |-> <<>>, message |-> <<<<10,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<13>>, tagger |-> <<>>, message |-> <<<<32>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<13>>, tagger |-> <<>>, message |-> <<<<32,109,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<13>>, tagger |-> <<>>, message |-> <<<<109,13,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<13>>, tagger |-> <<>>, message |-> <<<<116,114,101,101,32,120,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<13>>, tagger |-> <<>>, message |-> <<<<10,109>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<13>>, tagger |-> <<>>, message |-> <<<<255,0,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<13>>, tagger |-> <<>>, message |-> <<<<111,98,106,101,99,116,32,120,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<13>>, tagger |-> <<>>, message |-> <<<<97,10,10,98,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<13>>, tagger |-> <<>>, message |-> <<<<103,112,103,115,105,103,32,45,45,45,45,45,66,69,71,73,78,32,80,71,80,32,83,73,71,78,65,84,85,82,69,45,45,45,45,45,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<109>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<10,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<32>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<32,109,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<109,13,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<116,114,101,101,32,120,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<10,109>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<255,0,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<111,98,106,101,99,116,32,120,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<97,10,10,98,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<103,112,103,115,105,103,32,45,45,45,45,45,66,69,71,73,78,32,80,71,80,32,83,73,71,78,65,84,85,82,69,45,45,45,45,45,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<109>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<10,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<32>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<32,109,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<109,13,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<116,114,101,101,32,120,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<10,109>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<255,0,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<111,98,106,101,99,116,32,120,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<97,10,10,98,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<103,112,103,115,105,103,32,45,45,45,45,45,66,69,71,73,78,32,80,71,80,32,83,73,71,78,65,84,85,82,69,45,45,45,45,45,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<13>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<13>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<109>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<13>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<13>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<13>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<10,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<13>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<32>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<13>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<32,109,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<13>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<109,13,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<13>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<116,114,101,101,32,120,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<13>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<10,109>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<13>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<255,0,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<13>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<111,98,106,101,99,116,32,120,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<13>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<97,10,10,98,10>>>>],
     [t |-> "tag", object |-> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, type |-> <<255>>, tag |-> <<13>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<103,112,103,115,105,103,32,45,45,45,45,45,66,69,71,73,78,32,80,71,80,32,83,73,71,78,65,84,85,82,69,45,45,45,45,45,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118,49>>, tagger |-> <<>>, message |-> <<>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118,49>>, tagger |-> <<>>, message |-> <<<<109>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118,49>>, tagger |-> <<>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118,49>>, tagger |-> <<>>, message |-> <<<<10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118,49>>, tagger |-> <<>>, message |-> <<<<10,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118,49>>, tagger |-> <<>>, message |-> <<<<32>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118,49>>, tagger |-> <<>>, message |-> <<<<32,109,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118,49>>, tagger |-> <<>>, message |-> <<<<109,13,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118,49>>, tagger |-> <<>>, message |-> <<<<116,114,101,101,32,120,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118,49>>, tagger |-> <<>>, message |-> <<<<10,109>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118,49>>, tagger |-> <<>>, message |-> <<<<255,0,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118,49>>, tagger |-> <<>>, message |-> <<<<111,98,106,101,99,116,32,120,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118,49>>, tagger |-> <<>>, message |-> <<<<97,10,10,98,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118,49>>, tagger |-> <<>>, message |-> <<<<103,112,103,115,105,103,32,45,45,45,45,45,66,69,71,73,78,32,80,71,80,32,83,73,71,78,65,84,85,82,69,45,45,45,45,45,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<109>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<10,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<32>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<32,109,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<109,13,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<116,114,101,101,32,120,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<10,109>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<255,0,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<111,98,106,101,99,116,32,120,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<97,10,10,98,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<103,112,103,115,105,103,32,45,45,45,45,45,66,69,71,73,78,32,80,71,80,32,83,73,71,78,65,84,85,82,69,45,45,45,45,45,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<109>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<10,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<32>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<32,109,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<109,13,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<116,114,101,101,32,120,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<10,109>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<255,0,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<111,98,106,101,99,116,32,120,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<97,10,10,98,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<103,112,103,115,105,103,32,45,45,45,45,45,66,69,71,73,78,32,80,71,80,32,83,73,71,78,65,84,85,82,69,45,45,45,45,45,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<109>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<10,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<32>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<32,109,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<109,13,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<116,114,101,101,32,120,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<10,109>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<255,0,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<111,98,106,101,99,116,32,120,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<97,10,10,98,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<103,112,103,115,105,103,32,45,45,45,45,45,66,69,71,73,78,32,80,71,80,32,83,73,71,78,65,84,85,82,69,45,45,45,45,45,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<>>, tagger |-> <<>>, message |-> <<>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<>>, tagger |-> <<>>, message |-> <<<<109>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<>>, tagger |-> <<>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<>>, tagger |-> <<>>, message |-> <<<<10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<>>, tagger |-> <<>>, message |-> <<<<10,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<>>, tagger |-> <<>>, message |-> <<<<32>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<>>, tagger |-> <<>>, message |-> <<<<32,109,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<>>, tagger |-> <<>>, message |-> <<<<109,13,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<>>, tagger |-> <<>>, message |-> <<<<116,114,101,101,32,120,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<>>, tagger |-> <<>>, message |-> <<<<10,109>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<>>, tagger |-> <<>>, message |-> <<<<255,0,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<>>, tagger |-> <<>>, message |-> <<<<111,98,106,101,99,116,32,120,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<>>, tagger |-> <<>>, message |-> <<<<97,10,10,98,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<>>, tagger |-> <<>>, message |-> <<<<103,112,103,115,105,103,32,45,45,45,45,45,66,69,71,73,78,32,80,71,80,32,83,73,71,78,65,84,85,82,69,45,45,45,45,45,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<109>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<10,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<32>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<32,109,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<109,13,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<116,114,101,101,32,120,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<10,109>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<255,0,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<111,98,106,101,99,116,32,120,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<97,10,10,98,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<103,112,103,115,105,103,32,45,45,45,45,45,66,69,71,73,78,32,80,71,80,32,83,73,71,78,65,84,85,82,69,45,45,45,45,45,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<109>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<10,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<32>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<32,109,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<109,13,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<116,114,101,101,32,120,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<10,109>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<255,0,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<111,98,106,101,99,116,32,120,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<97,10,10,98,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<103,112,103,115,105,103,32,45,45,45,45,45,66,69,71,73,78,32,80,71,80,32,83,73,71,78,65,84,85,82,69,45,45,45,45,45,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<109>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<10,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<32>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<32,109,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<109,13,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<116,114,101,101,32,120,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<10,109>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<255,0,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<111,98,106,101,99,116,32,120,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<97,10,10,98,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<103,112,103,115,105,103,32,45,45,45,45,45,66,69,71,73,78,32,80,71,80,32,83,73,71,78,65,84,85,82,69,45,45,45,45,45,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<32>>, tagger |-> <<>>, message |-> <<>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<32>>, tagger |-> <<>>, message |-> <<<<109>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<32>>, tagger |-> <<>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<32>>, tagger |-> <<>>, message |-> <<<<10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<32>>, tagger |-> <<>>, message |-> <<<<10,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<32>>, tagger |-> <<>>, message |-> <<<<32>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<32>>, tagger |-> <<>>, message |-> <<<<32,109,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<32>>, tagger |-> <<>>, message |-> <<<<109,13,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<32>>, tagger |-> <<>>, message |-> <<<<116,114,101,101,32,120,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<32>>, tagger |-> <<>>, message |-> <<<<10,109>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<32>>, tagger |-> <<>>, message |-> <<<<255,0,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<32>>, tagger |-> <<>>, message |-> <<<<111,98,106,101,99,116,32,120,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<32>>, tagger |-> <<>>, message |-> <<<<97,10,10,98,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<32>>, tagger |-> <<>>, message |-> <<<<103,112,103,115,105,103,32,45,45,45,45,45,66,69,71,73,78,32,80,71,80,32,83,73,71,78,65,84,85,82,69,45,45,45,45,45,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<109>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<10,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<32>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<32,109,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<109,13,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<116,114,101,101,32,120,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<10,109>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<255,0,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<111,98,106,101,99,116,32,120,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<97,10,10,98,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<103,112,103,115,105,103,32,45,45,45,45,45,66,69,71,73,78,32,80,71,80,32,83,73,71,78,65,84,85,82,69,45,45,45,45,45,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<109>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<10,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<32>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<32,109,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<109,13,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<116,114,101,101,32,120,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<10,109>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<255,0,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<111,98,106,101,99,116,32,120,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<97,10,10,98,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<103,112,103,115,105,103,32,45,45,45,45,45,66,69,71,73,78,32,80,71,80,32,83,73,71,78,65,84,85,82,69,45,45,45,45,45,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<32>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<32>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<109>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<32>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<32>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<32>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<10,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<32>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<32>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<32>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<32,109,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<32>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<109,13,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<32>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<116,114,101,101,32,120,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<32>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<10,109>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<32>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<255,0,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<32>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<111,98,106,101,99,116,32,120,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<32>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<97,10,10,98,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<32>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<103,112,103,115,105,103,32,45,45,45,45,45,66,69,71,73,78,32,80,71,80,32,83,73,71,78,65,84,85,82,69,45,45,45,45,45,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<13>>, tagger |-> <<>>, message |-> <<>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<13>>, tagger |-> <<>>, message |-> <<<<109>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<13>>, tagger |-> <<>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<13>>, tagger |-> <<>>, message |-> <<<<10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<13>>, tagger |-> <<>>, message |-> <<<<10,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<13>>, tagger |-> <<>>, message |-> <<<<32>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<13>>, tagger |-> <<>>, message |-> <<<<32,109,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<13>>, tagger |-> <<>>, message |-> <<<<109,13,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<13>>, tagger |-> <<>>, message |-> <<<<116,114,101,101,32,120,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<13>>, tagger |-> <<>>, message |-> <<<<10,109>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<13>>, tagger |-> <<>>, message |-> <<<<255,0,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<13>>, tagger |-> <<>>, message |-> <<<<111,98,106,101,99,116,32,120,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<13>>, tagger |-> <<>>, message |-> <<<<97,10,10,98,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<13>>, tagger |-> <<>>, message |-> <<<<103,112,103,115,105,103,32,45,45,45,45,45,66,69,71,73,78,32,80,71,80,32,83,73,71,78,65,84,85,82,69,45,45,45,45,45,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<109>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<10,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<32>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<32,109,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<109,13,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<116,114,101,101,32,120,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<10,109>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<255,0,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<111,98,106,101,99,116,32,120,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<97,10,10,98,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<103,112,103,115,105,103,32,45,45,45,45,45,66,69,71,73,78,32,80,71,80,32,83,73,71,78,65,84,85,82,69,45,45,45,45,45,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<109>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<10,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<32>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<32,109,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<109,13,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<116,114,101,101,32,120,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<10,109>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<255,0,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<111,98,106,101,99,116,32,120,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<97,10,10,98,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<103,112,103,115,105,103,32,45,45,45,45,45,66,69,71,73,78,32,80,71,80,32,83,73,71,78,65,84,85,82,69,45,45,45,45,45,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<13>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<13>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<109>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<13>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<13>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<13>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<10,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<13>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<32>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<13>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<32,109,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<13>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<109,13,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<13>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<116,114,101,101,32,120,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<13>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<10,109>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<13>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<255,0,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<13>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<111,98,106,101,99,116,32,120,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<13>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<97,10,10,98,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<13>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<103,112,103,115,105,103,32,45,45,45,45,45,66,69,71,73,78,32,80,71,80,32,83,73,71,78,65,84,85,82,69,45,45,45,45,45,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<118,49>>, tagger |-> <<>>, message |-> <<>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<118,49>>, tagger |-> <<>>, message |-> <<<<109>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<118,49>>, tagger |-> <<>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<118,49>>, tagger |-> <<>>, message |-> <<<<10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<118,49>>, tagger |-> <<>>, message |-> <<<<10,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<118,49>>, tagger |-> <<>>, message |-> <<<<32>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<118,49>>, tagger |-> <<>>, message |-> <<<<32,109,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<118,49>>, tagger |-> <<>>, message |-> <<<<109,13,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<118,49>>, tagger |-> <<>>, message |-> <<<<116,114,101,101,32,120,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<118,49>>, tagger |-> <<>>, message |-> <<<<10,109>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<118,49>>, tagger |-> <<>>, message |-> <<<<255,0,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<118,49>>, tagger |-> <<>>, message |-> <<<<111,98,106,101,99,116,32,120,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<118,49>>, tagger |-> <<>>, message |-> <<<<97,10,10,98,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<118,49>>, tagger |-> <<>>, message |-> <<<<103,112,103,115,105,103,32,45,45,45,45,45,66,69,71,73,78,32,80,71,80,32,83,73,71,78,65,84,85,82,69,45,45,45,45,45,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<109>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<10,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<32>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<32,109,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<109,13,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<116,114,101,101,32,120,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<10,109>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<255,0,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<111,98,106,101,99,116,32,120,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<97,10,10,98,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<103,112,103,115,105,103,32,45,45,45,45,45,66,69,71,73,78,32,80,71,80,32,83,73,71,78,65,84,85,82,69,45,45,45,45,45,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<109>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<10,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<32>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<32,109,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<109,13,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<116,114,101,101,32,120,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<10,109>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<255,0,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<111,98,106,101,99,116,32,120,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<97,10,10,98,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<103,112,103,115,105,103,32,45,45,45,45,45,66,69,71,73,78,32,80,71,80,32,83,73,71,78,65,84,85,82,69,45,45,45,45,45,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<109>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<10,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<32>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<32,109,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<109,13,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<116,114,101,101,32,120,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<10,109>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<255,0,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<111,98,106,101,99,116,32,120,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<97,10,10,98,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<103,112,103,115,105,103,32,45,45,45,45,45,66,69,71,73,78,32,80,71,80,32,83,73,71,78,65,84,85,82,69,45,45,45,45,45,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<>>, tagger |-> <<>>, message |-> <<>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<>>, tagger |-> <<>>, message |-> <<<<109>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<>>, tagger |-> <<>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<>>, tagger |-> <<>>, message |-> <<<<10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<>>, tagger |-> <<>>, message |-> <<<<10,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<>>, tagger |-> <<>>, message |-> <<<<32>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<>>, tagger |-> <<>>, message |-> <<<<32,109,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<>>, tagger |-> <<>>, message |-> <<<<109,13,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<>>, tagger |-> <<>>, message |-> <<<<116,114,101,101,32,120,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<>>, tagger |-> <<>>, message |-> <<<<10,109>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<>>, tagger |-> <<>>, message |-> <<<<255,0,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<>>, tagger |-> <<>>, message |-> <<<<111,98,106,101,99,116,32,120,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<>>, tagger |-> <<>>, message |-> <<<<97,10,10,98,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<>>, tagger |-> <<>>, message |-> <<<<103,112,103,115,105,103,32,45,45,45,45,45,66,69,71,73,78,32,80,71,80,32,83,73,71,78,65,84,85,82,69,45,45,45,45,45,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<109>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<10,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<32>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<32,109,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<109,13,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<116,114,101,101,32,120,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<10,109>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<255,0,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<111,98,106,101,99,116,32,120,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<97,10,10,98,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<103,112,103,115,105,103,32,45,45,45,45,45,66,69,71,73,78,32,80,71,80,32,83,73,71,78,65,84,85,82,69,45,45,45,45,45,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<109>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<10,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<32>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<32,109,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<109,13,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<116,114,101,101,32,120,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<10,109>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<255,0,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<111,98,106,101,99,116,32,120,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<97,10,10,98,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<103,112,103,115,105,103,32,45,45,45,45,45,66,69,71,73,78,32,80,71,80,32,83,73,71,78,65,84,85,82,69,45,45,45,45,45,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<109>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<10,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<32>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<32,109,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<109,13,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<116,114,101,101,32,120,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<10,109>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<255,0,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<111,98,106,101,99,116,32,120,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<97,10,10,98,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<103,112,103,115,105,103,32,45,45,45,45,45,66,69,71,73,78,32,80,71,80,32,83,73,71,78,65,84,85,82,69,45,45,45,45,45,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<32>>, tagger |-> <<>>, message |-> <<>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<32>>, tagger |-> <<>>, message |-> <<<<109>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<32>>, tagger |-> <<>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<32>>, tagger |-> <<>>, message |-> <<<<10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<32>>, tagger |-> <<>>, message |-> <<<<10,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<32>>, tagger |-> <<>>, message |-> <<<<32>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<32>>, tagger |-> <<>>, message |-> <<<<32,109,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<32>>, tagger |-> <<>>, message |-> <<<<109,13,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<32>>, tagger |-> <<>>, message |-> <<<<116,114,101,101,32,120,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<32>>, tagger |-> <<>>, message |-> <<<<10,109>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<32>>, tagger |-> <<>>, message |-> <<<<255,0,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<32>>, tagger |-> <<>>, message |-> <<<<111,98,106,101,99,116,32,120,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<32>>, tagger |-> <<>>, message |-> <<<<97,10,10,98,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<32>>, tagger |-> <<>>, message |-> <<<<103,112,103,115,105,103,32,45,45,45,45,45,66,69,71,73,78,32,80,71,80,32,83,73,71,78,65,84,85,82,69,45,45,45,45,45,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<109>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<10,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<32>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<32,109,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<109,13,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<116,114,101,101,32,120,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<10,109>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<255,0,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<111,98,106,101,99,116,32,120,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<97,10,10,98,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<103,112,103,115,105,103,32,45,45,45,45,45,66,69,71,73,78,32,80,71,80,32,83,73,71,78,65,84,85,82,69,45,45,45,45,45,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<109>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<10,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<32>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<32,109,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<109,13,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<116,114,101,101,32,120,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<10,109>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<255,0,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<111,98,106,101,99,116,32,120,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<97,10,10,98,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<103,112,103,115,105,103,32,45,45,45,45,45,66,69,71,73,78,32,80,71,80,32,83,73,71,78,65,84,85,82,69,45,45,45,45,45,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<32>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<32>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<109>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<32>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<32>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<32>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<10,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<32>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<32>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<32>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<32,109,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<32>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<109,13,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<32>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<116,114,101,101,32,120,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<32>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<10,109>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<32>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<255,0,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<32>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<111,98,106,101,99,116,32,120,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<32>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<97,10,10,98,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<32>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<103,112,103,115,105,103,32,45,45,45,45,45,66,69,71,73,78,32,80,71,80,32,83,73,71,78,65,84,85,82,69,45,45,45,45,45,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<13>>, tagger |-> <<>>, message |-> <<>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<13>>, tagger |-> <<>>, message |-> <<<<109>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<13>>, tagger |-> <<>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<13>>, tagger |-> <<>>, message |-> <<<<10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<13>>, tagger |-> <<>>, message |-> <<<<10,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<13>>, tagger |-> <<>>, message |-> <<<<32>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<13>>, tagger |-> <<>>, message |-> <<<<32,109,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<13>>, tagger |-> <<>>, message |-> <<<<109,13,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<13>>, tagger |-> <<>>, message |-> <<<<116,114,101,101,32,120,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<13>>, tagger |-> <<>>, message |-> <<<<10,109>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<13>>, tagger |-> <<>>, message |-> <<<<255,0,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<13>>, tagger |-> <<>>, message |-> <<<<111,98,106,101,99,116,32,120,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<13>>, tagger |-> <<>>, message |-> <<<<97,10,10,98,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<13>>, tagger |-> <<>>, message |-> <<<<103,112,103,115,105,103,32,45,45,45,45,45,66,69,71,73,78,32,80,71,80,32,83,73,71,78,65,84,85,82,69,45,45,45,45,45,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<109>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<10,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<32>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<32,109,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<109,13,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<116,114,101,101,32,120,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<10,109>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<255,0,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<111,98,106,101,99,116,32,120,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<97,10,10,98,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<103,112,103,115,105,103,32,45,45,45,45,45,66,69,71,73,78,32,80,71,80,32,83,73,71,78,65,84,85,82,69,45,45,45,45,45,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<109>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<10,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<32>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<32,109,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<109,13,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<116,114,101,101,32,120,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<10,109>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<255,0,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<111,98,106,101,99,116,32,120,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<97,10,10,98,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<103,112,103,115,105,103,32,45,45,45,45,45,66,69,71,73,78,32,80,71,80,32,83,73,71,78,65,84,85,82,69,45,45,45,45,45,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<13>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<13>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<109>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<13>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<13>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<13>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<10,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<13>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<32>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<13>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<32,109,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<13>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<109,13,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<13>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<116,114,101,101,32,120,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<13>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<10,109>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<13>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<255,0,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<13>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<111,98,106,101,99,116,32,120,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<13>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<97,10,10,98,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<>>, tag |-> <<13>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<103,112,103,115,105,103,32,45,45,45,45,45,66,69,71,73,78,32,80,71,80,32,83,73,71,78,65,84,85,82,69,45,45,45,45,45,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<118,49>>, tagger |-> <<>>, message |-> <<>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<118,49>>, tagger |-> <<>>, message |-> <<<<109>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<118,49>>, tagger |-> <<>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<118,49>>, tagger |-> <<>>, message |-> <<<<10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<118,49>>, tagger |-> <<>>, message |-> <<<<10,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<118,49>>, tagger |-> <<>>, message |-> <<<<32>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<118,49>>, tagger |-> <<>>, message |-> <<<<32,109,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<118,49>>, tagger |-> <<>>, message |-> <<<<109,13,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<118,49>>, tagger |-> <<>>, message |-> <<<<116,114,101,101,32,120,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<118,49>>, tagger |-> <<>>, message |-> <<<<10,109>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<118,49>>, tagger |-> <<>>, message |-> <<<<255,0,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<118,49>>, tagger |-> <<>>, message |-> <<<<111,98,106,101,99,116,32,120,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<118,49>>, tagger |-> <<>>, message |-> <<<<97,10,10,98,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<118,49>>, tagger |-> <<>>, message |-> <<<<103,112,103,115,105,103,32,45,45,45,45,45,66,69,71,73,78,32,80,71,80,32,83,73,71,78,65,84,85,82,69,45,45,45,45,45,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<109>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<10,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<32>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<32,109,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<109,13,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<116,114,101,101,32,120,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<10,109>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<255,0,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<111,98,106,101,99,116,32,120,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<97,10,10,98,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<103,112,103,115,105,103,32,45,45,45,45,45,66,69,71,73,78,32,80,71,80,32,83,73,71,78,65,84,85,82,69,45,45,45,45,45,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<109>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<10,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<32>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<32,109,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<109,13,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<116,114,101,101,32,120,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<10,109>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<255,0,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<111,98,106,101,99,116,32,120,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<97,10,10,98,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<103,112,103,115,105,103,32,45,45,45,45,45,66,69,71,73,78,32,80,71,80,32,83,73,71,78,65,84,85,82,69,45,45,45,45,45,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<109>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<10,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<32>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<32,109,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<109,13,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<116,114,101,101,32,120,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<10,109>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<255,0,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<111,98,106,101,99,116,32,120,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<97,10,10,98,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<103,112,103,115,105,103,32,45,45,45,45,45,66,69,71,73,78,32,80,71,80,32,83,73,71,78,65,84,85,82,69,45,45,45,45,45,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<>>, tagger |-> <<>>, message |-> <<>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<>>, tagger |-> <<>>, message |-> <<<<109>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<>>, tagger |-> <<>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<>>, tagger |-> <<>>, message |-> <<<<10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<>>, tagger |-> <<>>, message |-> <<<<10,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<>>, tagger |-> <<>>, message |-> <<<<32>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<>>, tagger |-> <<>>, message |-> <<<<32,109,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<>>, tagger |-> <<>>, message |-> <<<<109,13,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<>>, tagger |-> <<>>, message |-> <<<<116,114,101,101,32,120,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<>>, tagger |-> <<>>, message |-> <<<<10,109>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<>>, tagger |-> <<>>, message |-> <<<<255,0,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<>>, tagger |-> <<>>, message |-> <<<<111,98,106,101,99,116,32,120,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<>>, tagger |-> <<>>, message |-> <<<<97,10,10,98,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<>>, tagger |-> <<>>, message |-> <<<<103,112,103,115,105,103,32,45,45,45,45,45,66,69,71,73,78,32,80,71,80,32,83,73,71,78,65,84,85,82,69,45,45,45,45,45,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<109>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<10,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<32>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<32,109,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<109,13,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<116,114,101,101,32,120,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<10,109>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<255,0,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<111,98,106,101,99,116,32,120,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<97,10,10,98,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<103,112,103,115,105,103,32,45,45,45,45,45,66,69,71,73,78,32,80,71,80,32,83,73,71,78,65,84,85,82,69,45,45,45,45,45,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<109>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<10,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<32>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<32,109,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<109,13,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<116,114,101,101,32,120,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<10,109>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<255,0,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<111,98,106,101,99,116,32,120,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<97,10,10,98,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<103,112,103,115,105,103,32,45,45,45,45,45,66,69,71,73,78,32,80,71,80,32,83,73,71,78,65,84,85,82,69,45,45,45,45,45,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<109>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<10,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<32>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<32,109,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<109,13,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<116,114,101,101,32,120,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<10,109>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<255,0,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<111,98,106,101,99,116,32,120,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<97,10,10,98,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<103,112,103,115,105,103,32,45,45,45,45,45,66,69,71,73,78,32,80,71,80,32,83,73,71,78,65,84,85,82,69,45,45,45,45,45,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<32>>, tagger |-> <<>>, message |-> <<>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<32>>, tagger |-> <<>>, message |-> <<<<109>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<32>>, tagger |-> <<>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<32>>, tagger |-> <<>>, message |-> <<<<10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<32>>, tagger |-> <<>>, message |-> <<<<10,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<32>>, tagger |-> <<>>, message |-> <<<<32>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<32>>, tagger |-> <<>>, message |-> <<<<32,109,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<32>>, tagger |-> <<>>, message |-> <<<<109,13,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<32>>, tagger |-> <<>>, message |-> <<<<116,114,101,101,32,120,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<32>>, tagger |-> <<>>, message |-> <<<<10,109>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<32>>, tagger |-> <<>>, message |-> <<<<255,0,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<32>>, tagger |-> <<>>, message |-> <<<<111,98,106,101,99,116,32,120,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<32>>, tagger |-> <<>>, message |-> <<<<97,10,10,98,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<32>>, tagger |-> <<>>, message |-> <<<<103,112,103,115,105,103,32,45,45,45,45,45,66,69,71,73,78,32,80,71,80,32,83,73,71,78,65,84,85,82,69,45,45,45,45,45,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<109>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<10,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<32>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<32,109,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<109,13,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<116,114,101,101,32,120,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<10,109>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<255,0,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<111,98,106,101,99,116,32,120,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<97,10,10,98,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<103,112,103,115,105,103,32,45,45,45,45,45,66,69,71,73,78,32,80,71,80,32,83,73,71,78,65,84,85,82,69,45,45,45,45,45,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<109>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<10,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<32>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<32,109,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<109,13,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<116,114,101,101,32,120,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<10,109>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<255,0,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<111,98,106,101,99,116,32,120,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<97,10,10,98,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<103,112,103,115,105,103,32,45,45,45,45,45,66,69,71,73,78,32,80,71,80,32,83,73,71,78,65,84,85,82,69,45,45,45,45,45,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<32>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<32>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<109>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<32>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<32>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<32>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<10,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<32>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<32>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<32>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<32,109,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<32>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<109,13,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<32>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<116,114,101,101,32,120,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<32>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<10,109>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<32>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<255,0,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<32>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<111,98,106,101,99,116,32,120,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<32>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<97,10,10,98,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<32>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<103,112,103,115,105,103,32,45,45,45,45,45,66,69,71,73,78,32,80,71,80,32,83,73,71,78,65,84,85,82,69,45,45,45,45,45,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<13>>, tagger |-> <<>>, message |-> <<>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<13>>, tagger |-> <<>>, message |-> <<<<109>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<13>>, tagger |-> <<>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<13>>, tagger |-> <<>>, message |-> <<<<10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<13>>, tagger |-> <<>>, message |-> <<<<10,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<13>>, tagger |-> <<>>, message |-> <<<<32>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<13>>, tagger |-> <<>>, message |-> <<<<32,109,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<13>>, tagger |-> <<>>, message |-> <<<<109,13,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<13>>, tagger |-> <<>>, message |-> <<<<116,114,101,101,32,120,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<13>>, tagger |-> <<>>, message |-> <<<<10,109>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<13>>, tagger |-> <<>>, message |-> <<<<255,0,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<13>>, tagger |-> <<>>, message |-> <<<<111,98,106,101,99,116,32,120,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<13>>, tagger |-> <<>>, message |-> <<<<97,10,10,98,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<13>>, tagger |-> <<>>, message |-> <<<<103,112,103,115,105,103,32,45,45,45,45,45,66,69,71,73,78,32,80,71,80,32,83,73,71,78,65,84,85,82,69,45,45,45,45,45,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<109>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<10,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<32>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<32,109,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<109,13,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<116,114,101,101,32,120,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<10,109>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<255,0,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<111,98,106,101,99,116,32,120,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<97,10,10,98,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<103,112,103,115,105,103,32,45,45,45,45,45,66,69,71,73,78,32,80,71,80,32,83,73,71,78,65,84,85,82,69,45,45,45,45,45,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<109>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<10,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<32>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<32,109,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<109,13,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<116,114,101,101,32,120,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<10,109>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<255,0,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<111,98,106,101,99,116,32,120,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<97,10,10,98,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<103,112,103,115,105,103,32,45,45,45,45,45,66,69,71,73,78,32,80,71,80,32,83,73,71,78,65,84,85,82,69,45,45,45,45,45,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<13>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<13>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<109>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<13>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<13>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<13>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<10,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<13>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<32>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<13>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<32,109,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<13>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<109,13,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<13>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<116,114,101,101,32,120,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<13>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<10,109>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<13>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<255,0,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<13>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<111,98,106,101,99,116,32,120,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<13>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<97,10,10,98,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<98,108,111,98>>, tag |-> <<13>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<103,112,103,115,105,103,32,45,45,45,45,45,66,69,71,73,78,32,80,71,80,32,83,73,71,78,65,84,85,82,69,45,45,45,45,45,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<118,49>>, tagger |-> <<>>, message |-> <<>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<118,49>>, tagger |-> <<>>, message |-> <<<<109>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<118,49>>, tagger |-> <<>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<118,49>>, tagger |-> <<>>, message |-> <<<<10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<118,49>>, tagger |-> <<>>, message |-> <<<<10,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<118,49>>, tagger |-> <<>>, message |-> <<<<32>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<118,49>>, tagger |-> <<>>, message |-> <<<<32,109,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<118,49>>, tagger |-> <<>>, message |-> <<<<109,13,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<118,49>>, tagger |-> <<>>, message |-> <<<<116,114,101,101,32,120,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<118,49>>, tagger |-> <<>>, message |-> <<<<10,109>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<118,49>>, tagger |-> <<>>, message |-> <<<<255,0,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<118,49>>, tagger |-> <<>>, message |-> <<<<111,98,106,101,99,116,32,120,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<118,49>>, tagger |-> <<>>, message |-> <<<<97,10,10,98,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<118,49>>, tagger |-> <<>>, message |-> <<<<103,112,103,115,105,103,32,45,45,45,45,45,66,69,71,73,78,32,80,71,80,32,83,73,71,78,65,84,85,82,69,45,45,45,45,45,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<109>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<10,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<32>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<32,109,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<109,13,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<116,114,101,101,32,120,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<10,109>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<255,0,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<111,98,106,101,99,116,32,120,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<97,10,10,98,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<103,112,103,115,105,103,32,45,45,45,45,45,66,69,71,73,78,32,80,71,80,32,83,73,71,78,65,84,85,82,69,45,45,45,45,45,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<109>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<10,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<32>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<32,109,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<109,13,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<116,114,101,101,32,120,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<10,109>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<255,0,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<111,98,106,101,99,116,32,120,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<97,10,10,98,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<103,112,103,115,105,103,32,45,45,45,45,45,66,69,71,73,78,32,80,71,80,32,83,73,71,78,65,84,85,82,69,45,45,45,45,45,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<109>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<10,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<32>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<32,109,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<109,13,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<116,114,101,101,32,120,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<10,109>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<255,0,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<111,98,106,101,99,116,32,120,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<97,10,10,98,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<118,49>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<103,112,103,115,105,103,32,45,45,45,45,45,66,69,71,73,78,32,80,71,80,32,83,73,71,78,65,84,85,82,69,45,45,45,45,45,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<>>, tagger |-> <<>>, message |-> <<>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<>>, tagger |-> <<>>, message |-> <<<<109>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<>>, tagger |-> <<>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<>>, tagger |-> <<>>, message |-> <<<<10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<>>, tagger |-> <<>>, message |-> <<<<10,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<>>, tagger |-> <<>>, message |-> <<<<32>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<>>, tagger |-> <<>>, message |-> <<<<32,109,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<>>, tagger |-> <<>>, message |-> <<<<109,13,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<>>, tagger |-> <<>>, message |-> <<<<116,114,101,101,32,120,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<>>, tagger |-> <<>>, message |-> <<<<10,109>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<>>, tagger |-> <<>>, message |-> <<<<255,0,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<>>, tagger |-> <<>>, message |-> <<<<111,98,106,101,99,116,32,120,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<>>, tagger |-> <<>>, message |-> <<<<97,10,10,98,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<>>, tagger |-> <<>>, message |-> <<<<103,112,103,115,105,103,32,45,45,45,45,45,66,69,71,73,78,32,80,71,80,32,83,73,71,78,65,84,85,82,69,45,45,45,45,45,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<109>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<10,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<32>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<32,109,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<109,13,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<116,114,101,101,32,120,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<10,109>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<255,0,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<111,98,106,101,99,116,32,120,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<97,10,10,98,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<103,112,103,115,105,103,32,45,45,45,45,45,66,69,71,73,78,32,80,71,80,32,83,73,71,78,65,84,85,82,69,45,45,45,45,45,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<109>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<10,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<32>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<32,109,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<109,13,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<116,114,101,101,32,120,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<10,109>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<255,0,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<111,98,106,101,99,116,32,120,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<97,10,10,98,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<103,112,103,115,105,103,32,45,45,45,45,45,66,69,71,73,78,32,80,71,80,32,83,73,71,78,65,84,85,82,69,45,45,45,45,45,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<109>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<10,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<32>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<32,109,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<109,13,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<116,114,101,101,32,120,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<10,109>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<255,0,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<111,98,106,101,99,116,32,120,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<97,10,10,98,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<103,112,103,115,105,103,32,45,45,45,45,45,66,69,71,73,78,32,80,71,80,32,83,73,71,78,65,84,85,82,69,45,45,45,45,45,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<32>>, tagger |-> <<>>, message |-> <<>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<32>>, tagger |-> <<>>, message |-> <<<<109>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<32>>, tagger |-> <<>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<32>>, tagger |-> <<>>, message |-> <<<<10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<32>>, tagger |-> <<>>, message |-> <<<<10,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<32>>, tagger |-> <<>>, message |-> <<<<32>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<32>>, tagger |-> <<>>, message |-> <<<<32,109,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<32>>, tagger |-> <<>>, message |-> <<<<109,13,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<32>>, tagger |-> <<>>, message |-> <<<<116,114,101,101,32,120,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<32>>, tagger |-> <<>>, message |-> <<<<10,109>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<32>>, tagger |-> <<>>, message |-> <<<<255,0,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<32>>, tagger |-> <<>>, message |-> <<<<111,98,106,101,99,116,32,120,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<32>>, tagger |-> <<>>, message |-> <<<<97,10,10,98,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<32>>, tagger |-> <<>>, message |-> <<<<103,112,103,115,105,103,32,45,45,45,45,45,66,69,71,73,78,32,80,71,80,32,83,73,71,78,65,84,85,82,69,45,45,45,45,45,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<109>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<10,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<32>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<32,109,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<109,13,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<116,114,101,101,32,120,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<10,109>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<255,0,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<111,98,106,101,99,116,32,120,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<97,10,10,98,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<103,112,103,115,105,103,32,45,45,45,45,45,66,69,71,73,78,32,80,71,80,32,83,73,71,78,65,84,85,82,69,45,45,45,45,45,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<109>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<10,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<32>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<32,109,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<109,13,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<116,114,101,101,32,120,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<10,109>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<255,0,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<111,98,106,101,99,116,32,120,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<97,10,10,98,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<32>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<103,112,103,115,105,103,32,45,45,45,45,45,66,69,71,73,78,32,80,71,80,32,83,73,71,78,65,84,85,82,69,45,45,45,45,45,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<32>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<32>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<109>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<32>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<32>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<32>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<10,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<32>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<32>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<32>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<32,109,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<32>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<109,13,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<32>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<116,114,101,101,32,120,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<32>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<10,109>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<32>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<255,0,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<32>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<111,98,106,101,99,116,32,120,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<32>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<97,10,10,98,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<32>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<103,112,103,115,105,103,32,45,45,45,45,45,66,69,71,73,78,32,80,71,80,32,83,73,71,78,65,84,85,82,69,45,45,45,45,45,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<13>>, tagger |-> <<>>, message |-> <<>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<13>>, tagger |-> <<>>, message |-> <<<<109>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<13>>, tagger |-> <<>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<13>>, tagger |-> <<>>, message |-> <<<<10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<13>>, tagger |-> <<>>, message |-> <<<<10,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<13>>, tagger |-> <<>>, message |-> <<<<32>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<13>>, tagger |-> <<>>, message |-> <<<<32,109,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<13>>, tagger |-> <<>>, message |-> <<<<109,13,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<13>>, tagger |-> <<>>, message |-> <<<<116,114,101,101,32,120,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<13>>, tagger |-> <<>>, message |-> <<<<10,109>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<13>>, tagger |-> <<>>, message |-> <<<<255,0,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<13>>, tagger |-> <<>>, message |-> <<<<111,98,106,101,99,116,32,120,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<13>>, tagger |-> <<>>, message |-> <<<<97,10,10,98,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<13>>, tagger |-> <<>>, message |-> <<<<103,112,103,115,105,103,32,45,45,45,45,45,66,69,71,73,78,32,80,71,80,32,83,73,71,78,65,84,85,82,69,45,45,45,45,45,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<109>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<10,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<32>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<32,109,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<109,13,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<116,114,101,101,32,120,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<10,109>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<255,0,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<111,98,106,101,99,116,32,120,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<97,10,10,98,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, message |-> <<<<103,112,103,115,105,103,32,45,45,45,45,45,66,69,71,73,78,32,80,71,80,32,83,73,71,78,65,84,85,82,69,45,45,45,45,45,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<109>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<10,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<32>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<32,109,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<109,13,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<116,114,101,101,32,120,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<10,109>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<255,0,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<111,98,106,101,99,116,32,120,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<97,10,10,98,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<13>>, tagger |-> <<[name |-> <<65,32,85,32,84,104,111,114>>, email |-> <<97,64,98,46,99>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<43,48,49,48,48>>]>>, message |-> <<<<103,112,103,115,105,103,32,45,45,45,45,45,66,69,71,73,78,32,80,71,80,32,83,73,71,78,65,84,85,82,69,45,45,45,45,45,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<13>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<13>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<109>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<13>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<13>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<13>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<10,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<13>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<32>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<13>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<32,109,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<13>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<109,13,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<13>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<116,114,101,101,32,120,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<13>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<10,109>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<13>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<255,0,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<13>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<111,98,106,101,99,116,32,120,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<13>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<97,10,10,98,10>>>>],
     [t |-> "tag", object |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, type |-> <<255>>, tag |-> <<13>>, tagger |-> <<[name |-> <<>>, email |-> <<101>>, date |-> <<48>>, tz |-> <<43,48>>]>>, message |-> <<<<103,112,103,115,105,103,32,45,45,45,45,45,66,69,71,73,78,32,80,71,80,32,83,73,71,78,65,84,85,82,69,45,45,45,45,45,10>>>>]}
MC_MaxMergetags ==
    0
MC_Sigs ==
    {}
MC_Extras ==
    {}
MC_MaxExtras ==
    0
MC_Messages ==
    {<<109>>}
MC_Damages ==
    {"none"}
MC_DamageBytes ==
    {}
MC_RefLens ==
    {}
MC_Deltas ==
    {}
MC_Reframe ==
    FALSE
====
