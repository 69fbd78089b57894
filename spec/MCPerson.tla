---- MODULE MCPerson ----
\* Written by tools/genpools.py
EXTENDS GitObjects

MC_Kinds ==
    {"tag"}
MC_Contents ==
    {}
MC_Hashes ==
    {<<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>}
MC_Names ==
    {}
MC_Modes ==
    {}
MC_MaxEntries ==
    0
MC_Persons ==
    {[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]}
MC_MaxParents ==
    0
MC_OptAuthor ==
    FALSE
MC_Encodings ==
    {}
MC_Tags ==
    {[t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<>>, email |-> <<>>, date |-> <<48>>, tz |-> <<43,48,48,48,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<>>, email |-> <<>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<45,48,55,51,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<>>, email |-> <<>>, date |-> <<45,49>>, tz |-> <<90>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<>>, email |-> <<>>, date |-> <<48,48>>, tz |-> <<120,62>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<>>, email |-> <<97>>, date |-> <<48>>, tz |-> <<43,48,48,48,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<>>, email |-> <<97>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<45,48,55,51,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<>>, email |-> <<97>>, date |-> <<45,49>>, tz |-> <<90>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<>>, email |-> <<97>>, date |-> <<48,48>>, tz |-> <<120,62>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<>>, email |-> <<97,32,98>>, date |-> <<48>>, tz |-> <<43,48,48,48,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<>>, email |-> <<97,32,98>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<45,48,55,51,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<>>, email |-> <<97,32,98>>, date |-> <<45,49>>, tz |-> <<90>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<>>, email |-> <<97,32,98>>, date |-> <<48,48>>, tz |-> <<120,62>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<>>, email |-> <<97,64,98>>, date |-> <<48>>, tz |-> <<43,48,48,48,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<>>, email |-> <<97,64,98>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<45,48,55,51,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<>>, email |-> <<97,64,98>>, date |-> <<45,49>>, tz |-> <<90>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<>>, email |-> <<97,64,98>>, date |-> <<48,48>>, tz |-> <<120,62>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<>>, email |-> <<97,32,32,98>>, date |-> <<48>>, tz |-> <<43,48,48,48,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<>>, email |-> <<97,32,32,98>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<45,48,55,51,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<>>, email |-> <<97,32,32,98>>, date |-> <<45,49>>, tz |-> <<90>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<>>, email |-> <<97,32,32,98>>, date |-> <<48,48>>, tz |-> <<120,62>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<>>, email |-> <<97,60,98>>, date |-> <<48>>, tz |-> <<43,48,48,48,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<>>, email |-> <<97,60,98>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<45,48,55,51,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<>>, email |-> <<97,60,98>>, date |-> <<45,49>>, tz |-> <<90>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<>>, email |-> <<97,60,98>>, date |-> <<48,48>>, tz |-> <<120,62>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<>>, email |-> <<254>>, date |-> <<48>>, tz |-> <<43,48,48,48,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<>>, email |-> <<254>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<45,48,55,51,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<>>, email |-> <<254>>, date |-> <<45,49>>, tz |-> <<90>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<>>, email |-> <<254>>, date |-> <<48,48>>, tz |-> <<120,62>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<>>, email |-> <<32>>, date |-> <<48>>, tz |-> <<43,48,48,48,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<>>, email |-> <<32>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<45,48,55,51,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<>>, email |-> <<32>>, date |-> <<45,49>>, tz |-> <<90>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<>>, email |-> <<32>>, date |-> <<48,48>>, tz |-> <<120,62>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<>>, email |-> <<97,32>>, date |-> <<48>>, tz |-> <<43,48,48,48,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<>>, email |-> <<97,32>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<45,48,55,51,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<>>, email |-> <<97,32>>, date |-> <<45,49>>, tz |-> <<90>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<>>, email |-> <<97,32>>, date |-> <<48,48>>, tz |-> <<120,62>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65>>, email |-> <<>>, date |-> <<48>>, tz |-> <<43,48,48,48,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65>>, email |-> <<>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<45,48,55,51,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65>>, email |-> <<>>, date |-> <<45,49>>, tz |-> <<90>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65>>, email |-> <<>>, date |-> <<48,48>>, tz |-> <<120,62>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<48>>, tz |-> <<43,48,48,48,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<45,48,55,51,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<45,49>>, tz |-> <<90>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<48,48>>, tz |-> <<120,62>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65>>, email |-> <<97,32,98>>, date |-> <<48>>, tz |-> <<43,48,48,48,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65>>, email |-> <<97,32,98>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<45,48,55,51,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65>>, email |-> <<97,32,98>>, date |-> <<45,49>>, tz |-> <<90>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65>>, email |-> <<97,32,98>>, date |-> <<48,48>>, tz |-> <<120,62>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65>>, email |-> <<97,64,98>>, date |-> <<48>>, tz |-> <<43,48,48,48,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65>>, email |-> <<97,64,98>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<45,48,55,51,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65>>, email |-> <<97,64,98>>, date |-> <<45,49>>, tz |-> <<90>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65>>, email |-> <<97,64,98>>, date |-> <<48,48>>, tz |-> <<120,62>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65>>, email |-> <<97,32,32,98>>, date |-> <<48>>, tz |-> <<43,48,48,48,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65>>, email |-> <<97,32,32,98>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<45,48,55,51,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65>>, email |-> <<97,32,32,98>>, date |-> <<45,49>>, tz |-> <<90>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65>>, email |-> <<97,32,32,98>>, date |-> <<48,48>>, tz |-> <<120,62>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65>>, email |-> <<97,60,98>>, date |-> <<48>>, tz |-> <<43,48,48,48,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65>>, email |-> <<97,60,98>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<45,48,55,51,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65>>, email |-> <<97,60,98>>, date |-> <<45,49>>, tz |-> <<90>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65>>, email |-> <<97,60,98>>, date |-> <<48,48>>, tz |-> <<120,62>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65>>, email |-> <<254>>, date |-> <<48>>, tz |-> <<43,48,48,48,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65>>, email |-> <<254>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<45,48,55,51,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65>>, email |-> <<254>>, date |-> <<45,49>>, tz |-> <<90>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65>>, email |-> <<254>>, date |-> <<48,48>>, tz |-> <<120,62>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65>>, email |-> <<32>>, date |-> <<48>>, tz |-> <<43,48,48,48,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65>>, email |-> <<32>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<45,48,55,51,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65>>, email |-> <<32>>, date |-> <<45,49>>, tz |-> <<90>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65>>, email |-> <<32>>, date |-> <<48,48>>, tz |-> <<120,62>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65>>, email |-> <<97,32>>, date |-> <<48>>, tz |-> <<43,48,48,48,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65>>, email |-> <<97,32>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<45,48,55,51,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65>>, email |-> <<97,32>>, date |-> <<45,49>>, tz |-> <<90>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65>>, email |-> <<97,32>>, date |-> <<48,48>>, tz |-> <<120,62>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65,32,66>>, email |-> <<>>, date |-> <<48>>, tz |-> <<43,48,48,48,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65,32,66>>, email |-> <<>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<45,48,55,51,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65,32,66>>, email |-> <<>>, date |-> <<45,49>>, tz |-> <<90>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65,32,66>>, email |-> <<>>, date |-> <<48,48>>, tz |-> <<120,62>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65,32,66>>, email |-> <<97>>, date |-> <<48>>, tz |-> <<43,48,48,48,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65,32,66>>, email |-> <<97>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<45,48,55,51,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65,32,66>>, email |-> <<97>>, date |-> <<45,49>>, tz |-> <<90>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65,32,66>>, email |-> <<97>>, date |-> <<48,48>>, tz |-> <<120,62>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65,32,66>>, email |-> <<97,32,98>>, date |-> <<48>>, tz |-> <<43,48,48,48,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65,32,66>>, email |-> <<97,32,98>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<45,48,55,51,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65,32,66>>, email |-> <<97,32,98>>, date |-> <<45,49>>, tz |-> <<90>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65,32,66>>, email |-> <<97,32,98>>, date |-> <<48,48>>, tz |-> <<120,62>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65,32,66>>, email |-> <<97,64,98>>, date |-> <<48>>, tz |-> <<43,48,48,48,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65,32,66>>, email |-> <<97,64,98>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<45,48,55,51,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65,32,66>>, email |-> <<97,64,98>>, date |-> <<45,49>>, tz |-> <<90>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65,32,66>>, email |-> <<97,64,98>>, date |-> <<48,48>>, tz |-> <<120,62>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65,32,66>>, email |-> <<97,32,32,98>>, date |-> <<48>>, tz |-> <<43,48,48,48,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65,32,66>>, email |-> <<97,32,32,98>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<45,48,55,51,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65,32,66>>, email |-> <<97,32,32,98>>, date |-> <<45,49>>, tz |-> <<90>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65,32,66>>, email |-> <<97,32,32,98>>, date |-> <<48,48>>, tz |-> <<120,62>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65,32,66>>, email |-> <<97,60,98>>, date |-> <<48>>, tz |-> <<43,48,48,48,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65,32,66>>, email |-> <<97,60,98>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<45,48,55,51,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65,32,66>>, email |-> <<97,60,98>>, date |-> <<45,49>>, tz |-> <<90>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65,32,66>>, email |-> <<97,60,98>>, date |-> <<48,48>>, tz |-> <<120,62>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65,32,66>>, email |-> <<254>>, date |-> <<48>>, tz |-> <<43,48,48,48,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65,32,66>>, email |-> <<254>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<45,48,55,51,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65,32,66>>, email |-> <<254>>, date |-> <<45,49>>, tz |-> <<90>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65,32,66>>, email |-> <<254>>, date |-> <<48,48>>, tz |-> <<120,62>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65,32,66>>, email |-> <<32>>, date |-> <<48>>, tz |-> <<43,48,48,48,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65,32,66>>, email |-> <<32>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<45,48,55,51,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65,32,66>>, email |-> <<32>>, date |-> <<45,49>>, tz |-> <<90>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65,32,66>>, email |-> <<32>>, date |-> <<48,48>>, tz |-> <<120,62>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65,32,66>>, email |-> <<97,32>>, date |-> <<48>>, tz |-> <<43,48,48,48,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65,32,66>>, email |-> <<97,32>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<45,48,55,51,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65,32,66>>, email |-> <<97,32>>, date |-> <<45,49>>, tz |-> <<90>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65,32,66>>, email |-> <<97,32>>, date |-> <<48,48>>, tz |-> <<120,62>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65,32,32,66>>, email |-> <<>>, date |-> <<48>>, tz |-> <<43,48,48,48,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65,32,32,66>>, email |-> <<>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<45,48,55,51,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65,32,32,66>>, email |-> <<>>, date |-> <<45,49>>, tz |-> <<90>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65,32,32,66>>, email |-> <<>>, date |-> <<48,48>>, tz |-> <<120,62>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65,32,32,66>>, email |-> <<97>>, date |-> <<48>>, tz |-> <<43,48,48,48,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65,32,32,66>>, email |-> <<97>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<45,48,55,51,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65,32,32,66>>, email |-> <<97>>, date |-> <<45,49>>, tz |-> <<90>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65,32,32,66>>, email |-> <<97>>, date |-> <<48,48>>, tz |-> <<120,62>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65,32,32,66>>, email |-> <<97,32,98>>, date |-> <<48>>, tz |-> <<43,48,48,48,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65,32,32,66>>, email |-> <<97,32,98>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<45,48,55,51,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65,32,32,66>>, email |-> <<97,32,98>>, date |-> <<45,49>>, tz |-> <<90>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65,32,32,66>>, email |-> <<97,32,98>>, date |-> <<48,48>>, tz |-> <<120,62>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65,32,32,66>>, email |-> <<97,64,98>>, date |-> <<48>>, tz |-> <<43,48,48,48,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65,32,32,66>>, email |-> <<97,64,98>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<45,48,55,51,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65,32,32,66>>, email |-> <<97,64,98>>, date |-> <<45,49>>, tz |-> <<90>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65,32,32,66>>, email |-> <<97,64,98>>, date |-> <<48,48>>, tz |-> <<120,62>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65,32,32,66>>, email |-> <<97,32,32,98>>, date |-> <<48>>, tz |-> <<43,48,48,48,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65,32,32,66>>, email |-> <<97,32,32,98>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<45,48,55,51,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65,32,32,66>>, email |-> <<97,32,32,98>>, date |-> <<45,49>>, tz |-> <<90>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65,32,32,66>>, email |-> <<97,32,32,98>>, date |-> <<48,48>>, tz |-> <<120,62>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65,32,32,66>>, email |-> <<97,60,98>>, date |-> <<48>>, tz |-> <<43,48,48,48,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65,32,32,66>>, email |-> <<97,60,98>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<45,48,55,51,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65,32,32,66>>, email |-> <<97,60,98>>, date |-> <<45,49>>, tz |-> <<90>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65,32,32,66>>, email |-> <<97,60,98>>, date |-> <<48,48>>, tz |-> <<120,62>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65,32,32,66>>, email |-> <<254>>, date |-> <<48>>, tz |-> <<43,48,48,48,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65,32,32,66>>, email |-> <<254>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<45,48,55,51,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65,32,32,66>>, email |-> <<254>>, date |-> <<45,49>>, tz |-> <<90>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65,32,32,66>>, email |-> <<254>>, date |-> <<48,48>>, tz |-> <<120,62>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65,32,32,66>>, email |-> <<32>>, date |-> <<48>>, tz |-> <<43,48,48,48,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65,32,32,66>>, email |-> <<32>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<45,48,55,51,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65,32,32,66>>, email |-> <<32>>, date |-> <<45,49>>, tz |-> <<90>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65,32,32,66>>, email |-> <<32>>, date |-> <<48,48>>, tz |-> <<120,62>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65,32,32,66>>, email |-> <<97,32>>, date |-> <<48>>, tz |-> <<43,48,48,48,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65,32,32,66>>, email |-> <<97,32>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<45,48,55,51,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65,32,32,66>>, email |-> <<97,32>>, date |-> <<45,49>>, tz |-> <<90>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65,32,32,66>>, email |-> <<97,32>>, date |-> <<48,48>>, tz |-> <<120,62>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<32,65>>, email |-> <<>>, date |-> <<48>>, tz |-> <<43,48,48,48,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<32,65>>, email |-> <<>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<45,48,55,51,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<32,65>>, email |-> <<>>, date |-> <<45,49>>, tz |-> <<90>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<32,65>>, email |-> <<>>, date |-> <<48,48>>, tz |-> <<120,62>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<32,65>>, email |-> <<97>>, date |-> <<48>>, tz |-> <<43,48,48,48,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<32,65>>, email |-> <<97>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<45,48,55,51,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<32,65>>, email |-> <<97>>, date |-> <<45,49>>, tz |-> <<90>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<32,65>>, email |-> <<97>>, date |-> <<48,48>>, tz |-> <<120,62>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<32,65>>, email |-> <<97,32,98>>, date |-> <<48>>, tz |-> <<43,48,48,48,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<32,65>>, email |-> <<97,32,98>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<45,48,55,51,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<32,65>>, email |-> <<97,32,98>>, date |-> <<45,49>>, tz |-> <<90>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<32,65>>, email |-> <<97,32,98>>, date |-> <<48,48>>, tz |-> <<120,62>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<32,65>>, email |-> <<97,64,98>>, date |-> <<48>>, tz |-> <<43,48,48,48,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<32,65>>, email |-> <<97,64,98>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<45,48,55,51,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<32,65>>, email |-> <<97,64,98>>, date |-> <<45,49>>, tz |-> <<90>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<32,65>>, email |-> <<97,64,98>>, date |-> <<48,48>>, tz |-> <<120,62>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<32,65>>, email |-> <<97,32,32,98>>, date |-> <<48>>, tz |-> <<43,48,48,48,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<32,65>>, email |-> <<97,32,32,98>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<45,48,55,51,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<32,65>>, email |-> <<97,32,32,98>>, date |-> <<45,49>>, tz |-> <<90>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<32,65>>, email |-> <<97,32,32,98>>, date |-> <<48,48>>, tz |-> <<120,62>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<32,65>>, email |-> <<97,60,98>>, date |-> <<48>>, tz |-> <<43,48,48,48,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<32,65>>, email |-> <<97,60,98>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<45,48,55,51,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<32,65>>, email |-> <<97,60,98>>, date |-> <<45,49>>, tz |-> <<90>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<32,65>>, email |-> <<97,60,98>>, date |-> <<48,48>>, tz |-> <<120,62>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<32,65>>, email |-> <<254>>, date |-> <<48>>, tz |-> <<43,48,48,48,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<32,65>>, email |-> <<254>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<45,48,55,51,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<32,65>>, email |-> <<254>>, date |-> <<45,49>>, tz |-> <<90>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<32,65>>, email |-> <<254>>, date |-> <<48,48>>, tz |-> <<120,62>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<32,65>>, email |-> <<32>>, date |-> <<48>>, tz |-> <<43,48,48,48,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<32,65>>, email |-> <<32>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<45,48,55,51,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<32,65>>, email |-> <<32>>, date |-> <<45,49>>, tz |-> <<90>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<32,65>>, email |-> <<32>>, date |-> <<48,48>>, tz |-> <<120,62>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<32,65>>, email |-> <<97,32>>, date |-> <<48>>, tz |-> <<43,48,48,48,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<32,65>>, email |-> <<97,32>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<45,48,55,51,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<32,65>>, email |-> <<97,32>>, date |-> <<45,49>>, tz |-> <<90>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<32,65>>, email |-> <<97,32>>, date |-> <<48,48>>, tz |-> <<120,62>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65,32>>, email |-> <<>>, date |-> <<48>>, tz |-> <<43,48,48,48,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65,32>>, email |-> <<>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<45,48,55,51,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65,32>>, email |-> <<>>, date |-> <<45,49>>, tz |-> <<90>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65,32>>, email |-> <<>>, date |-> <<48,48>>, tz |-> <<120,62>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65,32>>, email |-> <<97>>, date |-> <<48>>, tz |-> <<43,48,48,48,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65,32>>, email |-> <<97>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<45,48,55,51,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65,32>>, email |-> <<97>>, date |-> <<45,49>>, tz |-> <<90>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65,32>>, email |-> <<97>>, date |-> <<48,48>>, tz |-> <<120,62>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65,32>>, email |-> <<97,32,98>>, date |-> <<48>>, tz |-> <<43,48,48,48,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65,32>>, email |-> <<97,32,98>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<45,48,55,51,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65,32>>, email |-> <<97,32,98>>, date |-> <<45,49>>, tz |-> <<90>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65,32>>, email |-> <<97,32,98>>, date |-> <<48,48>>, tz |-> <<120,62>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65,32>>, email |-> <<97,64,98>>, date |-> <<48>>, tz |-> <<43,48,48,48,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65,32>>, email |-> <<97,64,98>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<45,48,55,51,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65,32>>, email |-> <<97,64,98>>, date |-> <<45,49>>, tz |-> <<90>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65,32>>, email |-> <<97,64,98>>, date |-> <<48,48>>, tz |-> <<120,62>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65,32>>, email |-> <<97,32,32,98>>, date |-> <<48>>, tz |-> <<43,48,48,48,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65,32>>, email |-> <<97,32,32,98>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<45,48,55,51,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65,32>>, email |-> <<97,32,32,98>>, date |-> <<45,49>>, tz |-> <<90>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65,32>>, email |-> <<97,32,32,98>>, date |-> <<48,48>>, tz |-> <<120,62>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65,32>>, email |-> <<97,60,98>>, date |-> <<48>>, tz |-> <<43,48,48,48,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65,32>>, email |-> <<97,60,98>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<45,48,55,51,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65,32>>, email |-> <<97,60,98>>, date |-> <<45,49>>, tz |-> <<90>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65,32>>, email |-> <<97,60,98>>, date |-> <<48,48>>, tz |-> <<120,62>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65,32>>, email |-> <<254>>, date |-> <<48>>, tz |-> <<43,48,48,48,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65,32>>, email |-> <<254>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<45,48,55,51,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65,32>>, email |-> <<254>>, date |-> <<45,49>>, tz |-> <<90>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65,32>>, email |-> <<254>>, date |-> <<48,48>>, tz |-> <<120,62>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65,32>>, email |-> <<32>>, date |-> <<48>>, tz |-> <<43,48,48,48,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65,32>>, email |-> <<32>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<45,48,55,51,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65,32>>, email |-> <<32>>, date |-> <<45,49>>, tz |-> <<90>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65,32>>, email |-> <<32>>, date |-> <<48,48>>, tz |-> <<120,62>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65,32>>, email |-> <<97,32>>, date |-> <<48>>, tz |-> <<43,48,48,48,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65,32>>, email |-> <<97,32>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<45,48,55,51,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65,32>>, email |-> <<97,32>>, date |-> <<45,49>>, tz |-> <<90>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65,32>>, email |-> <<97,32>>, date |-> <<48,48>>, tz |-> <<120,62>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<97,62,98>>, email |-> <<>>, date |-> <<48>>, tz |-> <<43,48,48,48,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<97,62,98>>, email |-> <<>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<45,48,55,51,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<97,62,98>>, email |-> <<>>, date |-> <<45,49>>, tz |-> <<90>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<97,62,98>>, email |-> <<>>, date |-> <<48,48>>, tz |-> <<120,62>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<97,62,98>>, email |-> <<97>>, date |-> <<48>>, tz |-> <<43,48,48,48,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<97,62,98>>, email |-> <<97>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<45,48,55,51,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<97,62,98>>, email |-> <<97>>, date |-> <<45,49>>, tz |-> <<90>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<97,62,98>>, email |-> <<97>>, date |-> <<48,48>>, tz |-> <<120,62>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<97,62,98>>, email |-> <<97,32,98>>, date |-> <<48>>, tz |-> <<43,48,48,48,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<97,62,98>>, email |-> <<97,32,98>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<45,48,55,51,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<97,62,98>>, email |-> <<97,32,98>>, date |-> <<45,49>>, tz |-> <<90>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<97,62,98>>, email |-> <<97,32,98>>, date |-> <<48,48>>, tz |-> <<120,62>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<97,62,98>>, email |-> <<97,64,98>>, date |-> <<48>>, tz |-> <<43,48,48,48,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<97,62,98>>, email |-> <<97,64,98>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<45,48,55,51,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<97,62,98>>, email |-> <<97,64,98>>, date |-> <<45,49>>, tz |-> <<90>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<97,62,98>>, email |-> <<97,64,98>>, date |-> <<48,48>>, tz |-> <<120,62>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<97,62,98>>, email |-> <<97,32,32,98>>, date |-> <<48>>, tz |-> <<43,48,48,48,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<97,62,98>>, email |-> <<97,32,32,98>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<45,48,55,51,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<97,62,98>>, email |-> <<97,32,32,98>>, date |-> <<45,49>>, tz |-> <<90>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<97,62,98>>, email |-> <<97,32,32,98>>, date |-> <<48,48>>, tz |-> <<120,62>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<97,62,98>>, email |-> <<97,60,98>>, date |-> <<48>>, tz |-> <<43,48,48,48,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<97,62,98>>, email |-> <<97,60,98>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<45,48,55,51,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<97,62,98>>, email |-> <<97,60,98>>, date |-> <<45,49>>, tz |-> <<90>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<97,62,98>>, email |-> <<97,60,98>>, date |-> <<48,48>>, tz |-> <<120,62>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<97,62,98>>, email |-> <<254>>, date |-> <<48>>, tz |-> <<43,48,48,48,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<97,62,98>>, email |-> <<254>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<45,48,55,51,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<97,62,98>>, email |-> <<254>>, date |-> <<45,49>>, tz |-> <<90>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<97,62,98>>, email |-> <<254>>, date |-> <<48,48>>, tz |-> <<120,62>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<97,62,98>>, email |-> <<32>>, date |-> <<48>>, tz |-> <<43,48,48,48,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<97,62,98>>, email |-> <<32>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<45,48,55,51,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<97,62,98>>, email |-> <<32>>, date |-> <<45,49>>, tz |-> <<90>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<97,62,98>>, email |-> <<32>>, date |-> <<48,48>>, tz |-> <<120,62>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<97,62,98>>, email |-> <<97,32>>, date |-> <<48>>, tz |-> <<43,48,48,48,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<97,62,98>>, email |-> <<97,32>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<45,48,55,51,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<97,62,98>>, email |-> <<97,32>>, date |-> <<45,49>>, tz |-> <<90>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<97,62,98>>, email |-> <<97,32>>, date |-> <<48,48>>, tz |-> <<120,62>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<97,60,98>>, email |-> <<>>, date |-> <<48>>, tz |-> <<43,48,48,48,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<97,60,98>>, email |-> <<>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<45,48,55,51,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<97,60,98>>, email |-> <<>>, date |-> <<45,49>>, tz |-> <<90>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<97,60,98>>, email |-> <<>>, date |-> <<48,48>>, tz |-> <<120,62>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<97,60,98>>, email |-> <<97>>, date |-> <<48>>, tz |-> <<43,48,48,48,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<97,60,98>>, email |-> <<97>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<45,48,55,51,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<97,60,98>>, email |-> <<97>>, date |-> <<45,49>>, tz |-> <<90>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<97,60,98>>, email |-> <<97>>, date |-> <<48,48>>, tz |-> <<120,62>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<97,60,98>>, email |-> <<97,32,98>>, date |-> <<48>>, tz |-> <<43,48,48,48,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<97,60,98>>, email |-> <<97,32,98>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<45,48,55,51,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<97,60,98>>, email |-> <<97,32,98>>, date |-> <<45,49>>, tz |-> <<90>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<97,60,98>>, email |-> <<97,32,98>>, date |-> <<48,48>>, tz |-> <<120,62>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<97,60,98>>, email |-> <<97,64,98>>, date |-> <<48>>, tz |-> <<43,48,48,48,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<97,60,98>>, email |-> <<97,64,98>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<45,48,55,51,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<97,60,98>>, email |-> <<97,64,98>>, date |-> <<45,49>>, tz |-> <<90>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<97,60,98>>, email |-> <<97,64,98>>, date |-> <<48,48>>, tz |-> <<120,62>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<97,60,98>>, email |-> <<97,32,32,98>>, date |-> <<48>>, tz |-> <<43,48,48,48,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<97,60,98>>, email |-> <<97,32,32,98>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<45,48,55,51,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<97,60,98>>, email |-> <<97,32,32,98>>, date |-> <<45,49>>, tz |-> <<90>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<97,60,98>>, email |-> <<97,32,32,98>>, date |-> <<48,48>>, tz |-> <<120,62>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<97,60,98>>, email |-> <<97,60,98>>, date |-> <<48>>, tz |-> <<43,48,48,48,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<97,60,98>>, email |-> <<97,60,98>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<45,48,55,51,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<97,60,98>>, email |-> <<97,60,98>>, date |-> <<45,49>>, tz |-> <<90>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<97,60,98>>, email |-> <<97,60,98>>, date |-> <<48,48>>, tz |-> <<120,62>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<97,60,98>>, email |-> <<254>>, date |-> <<48>>, tz |-> <<43,48,48,48,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<97,60,98>>, email |-> <<254>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<45,48,55,51,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<97,60,98>>, email |-> <<254>>, date |-> <<45,49>>, tz |-> <<90>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<97,60,98>>, email |-> <<254>>, date |-> <<48,48>>, tz |-> <<120,62>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<97,60,98>>, email |-> <<32>>, date |-> <<48>>, tz |-> <<43,48,48,48,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<97,60,98>>, email |-> <<32>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<45,48,55,51,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<97,60,98>>, email |-> <<32>>, date |-> <<45,49>>, tz |-> <<90>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<97,60,98>>, email |-> <<32>>, date |-> <<48,48>>, tz |-> <<120,62>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<97,60,98>>, email |-> <<97,32>>, date |-> <<48>>, tz |-> <<43,48,48,48,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<97,60,98>>, email |-> <<97,32>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<45,48,55,51,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<97,60,98>>, email |-> <<97,32>>, date |-> <<45,49>>, tz |-> <<90>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<97,60,98>>, email |-> <<97,32>>, date |-> <<48,48>>, tz |-> <<120,62>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<62,32,120>>, email |-> <<>>, date |-> <<48>>, tz |-> <<43,48,48,48,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<62,32,120>>, email |-> <<>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<45,48,55,51,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<62,32,120>>, email |-> <<>>, date |-> <<45,49>>, tz |-> <<90>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<62,32,120>>, email |-> <<>>, date |-> <<48,48>>, tz |-> <<120,62>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<62,32,120>>, email |-> <<97>>, date |-> <<48>>, tz |-> <<43,48,48,48,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<62,32,120>>, email |-> <<97>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<45,48,55,51,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<62,32,120>>, email |-> <<97>>, date |-> <<45,49>>, tz |-> <<90>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<62,32,120>>, email |-> <<97>>, date |-> <<48,48>>, tz |-> <<120,62>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<62,32,120>>, email |-> <<97,32,98>>, date |-> <<48>>, tz |-> <<43,48,48,48,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<62,32,120>>, email |-> <<97,32,98>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<45,48,55,51,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<62,32,120>>, email |-> <<97,32,98>>, date |-> <<45,49>>, tz |-> <<90>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<62,32,120>>, email |-> <<97,32,98>>, date |-> <<48,48>>, tz |-> <<120,62>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<62,32,120>>, email |-> <<97,64,98>>, date |-> <<48>>, tz |-> <<43,48,48,48,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<62,32,120>>, email |-> <<97,64,98>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<45,48,55,51,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<62,32,120>>, email |-> <<97,64,98>>, date |-> <<45,49>>, tz |-> <<90>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<62,32,120>>, email |-> <<97,64,98>>, date |-> <<48,48>>, tz |-> <<120,62>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<62,32,120>>, email |-> <<97,32,32,98>>, date |-> <<48>>, tz |-> <<43,48,48,48,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<62,32,120>>, email |-> <<97,32,32,98>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<45,48,55,51,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<62,32,120>>, email |-> <<97,32,32,98>>, date |-> <<45,49>>, tz |-> <<90>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<62,32,120>>, email |-> <<97,32,32,98>>, date |-> <<48,48>>, tz |-> <<120,62>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<62,32,120>>, email |-> <<97,60,98>>, date |-> <<48>>, tz |-> <<43,48,48,48,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<62,32,120>>, email |-> <<97,60,98>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<45,48,55,51,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<62,32,120>>, email |-> <<97,60,98>>, date |-> <<45,49>>, tz |-> <<90>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<62,32,120>>, email |-> <<97,60,98>>, date |-> <<48,48>>, tz |-> <<120,62>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<62,32,120>>, email |-> <<254>>, date |-> <<48>>, tz |-> <<43,48,48,48,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<62,32,120>>, email |-> <<254>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<45,48,55,51,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<62,32,120>>, email |-> <<254>>, date |-> <<45,49>>, tz |-> <<90>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<62,32,120>>, email |-> <<254>>, date |-> <<48,48>>, tz |-> <<120,62>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<62,32,120>>, email |-> <<32>>, date |-> <<48>>, tz |-> <<43,48,48,48,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<62,32,120>>, email |-> <<32>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<45,48,55,51,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<62,32,120>>, email |-> <<32>>, date |-> <<45,49>>, tz |-> <<90>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<62,32,120>>, email |-> <<32>>, date |-> <<48,48>>, tz |-> <<120,62>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<62,32,120>>, email |-> <<97,32>>, date |-> <<48>>, tz |-> <<43,48,48,48,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<62,32,120>>, email |-> <<97,32>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<45,48,55,51,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<62,32,120>>, email |-> <<97,32>>, date |-> <<45,49>>, tz |-> <<90>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<62,32,120>>, email |-> <<97,32>>, date |-> <<48,48>>, tz |-> <<120,62>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<255,195>>, email |-> <<>>, date |-> <<48>>, tz |-> <<43,48,48,48,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<255,195>>, email |-> <<>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<45,48,55,51,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<255,195>>, email |-> <<>>, date |-> <<45,49>>, tz |-> <<90>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<255,195>>, email |-> <<>>, date |-> <<48,48>>, tz |-> <<120,62>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<255,195>>, email |-> <<97>>, date |-> <<48>>, tz |-> <<43,48,48,48,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<255,195>>, email |-> <<97>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<45,48,55,51,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<255,195>>, email |-> <<97>>, date |-> <<45,49>>, tz |-> <<90>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<255,195>>, email |-> <<97>>, date |-> <<48,48>>, tz |-> <<120,62>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<255,195>>, email |-> <<97,32,98>>, date |-> <<48>>, tz |-> <<43,48,48,48,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<255,195>>, email |-> <<97,32,98>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<45,48,55,51,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<255,195>>, email |-> <<97,32,98>>, date |-> <<45,49>>, tz |-> <<90>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<255,195>>, email |-> <<97,32,98>>, date |-> <<48,48>>, tz |-> <<120,62>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<255,195>>, email |-> <<97,64,98>>, date |-> <<48>>, tz |-> <<43,48,48,48,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<255,195>>, email |-> <<97,64,98>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<45,48,55,51,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<255,195>>, email |-> <<97,64,98>>, date |-> <<45,49>>, tz |-> <<90>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<255,195>>, email |-> <<97,64,98>>, date |-> <<48,48>>, tz |-> <<120,62>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<255,195>>, email |-> <<97,32,32,98>>, date |-> <<48>>, tz |-> <<43,48,48,48,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<255,195>>, email |-> <<97,32,32,98>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<45,48,55,51,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<255,195>>, email |-> <<97,32,32,98>>, date |-> <<45,49>>, tz |-> <<90>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<255,195>>, email |-> <<97,32,32,98>>, date |-> <<48,48>>, tz |-> <<120,62>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<255,195>>, email |-> <<97,60,98>>, date |-> <<48>>, tz |-> <<43,48,48,48,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<255,195>>, email |-> <<97,60,98>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<45,48,55,51,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<255,195>>, email |-> <<97,60,98>>, date |-> <<45,49>>, tz |-> <<90>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<255,195>>, email |-> <<97,60,98>>, date |-> <<48,48>>, tz |-> <<120,62>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<255,195>>, email |-> <<254>>, date |-> <<48>>, tz |-> <<43,48,48,48,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<255,195>>, email |-> <<254>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<45,48,55,51,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<255,195>>, email |-> <<254>>, date |-> <<45,49>>, tz |-> <<90>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<255,195>>, email |-> <<254>>, date |-> <<48,48>>, tz |-> <<120,62>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<255,195>>, email |-> <<32>>, date |-> <<48>>, tz |-> <<43,48,48,48,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<255,195>>, email |-> <<32>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<45,48,55,51,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<255,195>>, email |-> <<32>>, date |-> <<45,49>>, tz |-> <<90>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<255,195>>, email |-> <<32>>, date |-> <<48,48>>, tz |-> <<120,62>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<255,195>>, email |-> <<97,32>>, date |-> <<48>>, tz |-> <<43,48,48,48,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<255,195>>, email |-> <<97,32>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<45,48,55,51,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<255,195>>, email |-> <<97,32>>, date |-> <<45,49>>, tz |-> <<90>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<255,195>>, email |-> <<97,32>>, date |-> <<48,48>>, tz |-> <<120,62>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<46>>, email |-> <<>>, date |-> <<48>>, tz |-> <<43,48,48,48,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<46>>, email |-> <<>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<45,48,55,51,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<46>>, email |-> <<>>, date |-> <<45,49>>, tz |-> <<90>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<46>>, email |-> <<>>, date |-> <<48,48>>, tz |-> <<120,62>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<46>>, email |-> <<97>>, date |-> <<48>>, tz |-> <<43,48,48,48,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<46>>, email |-> <<97>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<45,48,55,51,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<46>>, email |-> <<97>>, date |-> <<45,49>>, tz |-> <<90>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<46>>, email |-> <<97>>, date |-> <<48,48>>, tz |-> <<120,62>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<46>>, email |-> <<97,32,98>>, date |-> <<48>>, tz |-> <<43,48,48,48,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<46>>, email |-> <<97,32,98>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<45,48,55,51,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<46>>, email |-> <<97,32,98>>, date |-> <<45,49>>, tz |-> <<90>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<46>>, email |-> <<97,32,98>>, date |-> <<48,48>>, tz |-> <<120,62>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<46>>, email |-> <<97,64,98>>, date |-> <<48>>, tz |-> <<43,48,48,48,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<46>>, email |-> <<97,64,98>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<45,48,55,51,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<46>>, email |-> <<97,64,98>>, date |-> <<45,49>>, tz |-> <<90>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<46>>, email |-> <<97,64,98>>, date |-> <<48,48>>, tz |-> <<120,62>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<46>>, email |-> <<97,32,32,98>>, date |-> <<48>>, tz |-> <<43,48,48,48,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<46>>, email |-> <<97,32,32,98>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<45,48,55,51,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<46>>, email |-> <<97,32,32,98>>, date |-> <<45,49>>, tz |-> <<90>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<46>>, email |-> <<97,32,32,98>>, date |-> <<48,48>>, tz |-> <<120,62>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<46>>, email |-> <<97,60,98>>, date |-> <<48>>, tz |-> <<43,48,48,48,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<46>>, email |-> <<97,60,98>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<45,48,55,51,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<46>>, email |-> <<97,60,98>>, date |-> <<45,49>>, tz |-> <<90>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<46>>, email |-> <<97,60,98>>, date |-> <<48,48>>, tz |-> <<120,62>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<46>>, email |-> <<254>>, date |-> <<48>>, tz |-> <<43,48,48,48,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<46>>, email |-> <<254>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<45,48,55,51,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<46>>, email |-> <<254>>, date |-> <<45,49>>, tz |-> <<90>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<46>>, email |-> <<254>>, date |-> <<48,48>>, tz |-> <<120,62>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<46>>, email |-> <<32>>, date |-> <<48>>, tz |-> <<43,48,48,48,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<46>>, email |-> <<32>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<45,48,55,51,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<46>>, email |-> <<32>>, date |-> <<45,49>>, tz |-> <<90>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<46>>, email |-> <<32>>, date |-> <<48,48>>, tz |-> <<120,62>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<46>>, email |-> <<97,32>>, date |-> <<48>>, tz |-> <<43,48,48,48,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<46>>, email |-> <<97,32>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<45,48,55,51,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<46>>, email |-> <<97,32>>, date |-> <<45,49>>, tz |-> <<90>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<46>>, email |-> <<97,32>>, date |-> <<48,48>>, tz |-> <<120,62>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65,32,66,32,67,32,68>>, email |-> <<>>, date |-> <<48>>, tz |-> <<43,48,48,48,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65,32,66,32,67,32,68>>, email |-> <<>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<45,48,55,51,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65,32,66,32,67,32,68>>, email |-> <<>>, date |-> <<45,49>>, tz |-> <<90>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65,32,66,32,67,32,68>>, email |-> <<>>, date |-> <<48,48>>, tz |-> <<120,62>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65,32,66,32,67,32,68>>, email |-> <<97>>, date |-> <<48>>, tz |-> <<43,48,48,48,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65,32,66,32,67,32,68>>, email |-> <<97>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<45,48,55,51,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65,32,66,32,67,32,68>>, email |-> <<97>>, date |-> <<45,49>>, tz |-> <<90>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65,32,66,32,67,32,68>>, email |-> <<97>>, date |-> <<48,48>>, tz |-> <<120,62>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65,32,66,32,67,32,68>>, email |-> <<97,32,98>>, date |-> <<48>>, tz |-> <<43,48,48,48,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65,32,66,32,67,32,68>>, email |-> <<97,32,98>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<45,48,55,51,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65,32,66,32,67,32,68>>, email |-> <<97,32,98>>, date |-> <<45,49>>, tz |-> <<90>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65,32,66,32,67,32,68>>, email |-> <<97,32,98>>, date |-> <<48,48>>, tz |-> <<120,62>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65,32,66,32,67,32,68>>, email |-> <<97,64,98>>, date |-> <<48>>, tz |-> <<43,48,48,48,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65,32,66,32,67,32,68>>, email |-> <<97,64,98>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<45,48,55,51,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65,32,66,32,67,32,68>>, email |-> <<97,64,98>>, date |-> <<45,49>>, tz |-> <<90>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65,32,66,32,67,32,68>>, email |-> <<97,64,98>>, date |-> <<48,48>>, tz |-> <<120,62>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65,32,66,32,67,32,68>>, email |-> <<97,32,32,98>>, date |-> <<48>>, tz |-> <<43,48,48,48,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65,32,66,32,67,32,68>>, email |-> <<97,32,32,98>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<45,48,55,51,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65,32,66,32,67,32,68>>, email |-> <<97,32,32,98>>, date |-> <<45,49>>, tz |-> <<90>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65,32,66,32,67,32,68>>, email |-> <<97,32,32,98>>, date |-> <<48,48>>, tz |-> <<120,62>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65,32,66,32,67,32,68>>, email |-> <<97,60,98>>, date |-> <<48>>, tz |-> <<43,48,48,48,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65,32,66,32,67,32,68>>, email |-> <<97,60,98>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<45,48,55,51,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65,32,66,32,67,32,68>>, email |-> <<97,60,98>>, date |-> <<45,49>>, tz |-> <<90>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65,32,66,32,67,32,68>>, email |-> <<97,60,98>>, date |-> <<48,48>>, tz |-> <<120,62>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65,32,66,32,67,32,68>>, email |-> <<254>>, date |-> <<48>>, tz |-> <<43,48,48,48,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65,32,66,32,67,32,68>>, email |-> <<254>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<45,48,55,51,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65,32,66,32,67,32,68>>, email |-> <<254>>, date |-> <<45,49>>, tz |-> <<90>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65,32,66,32,67,32,68>>, email |-> <<254>>, date |-> <<48,48>>, tz |-> <<120,62>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65,32,66,32,67,32,68>>, email |-> <<32>>, date |-> <<48>>, tz |-> <<43,48,48,48,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65,32,66,32,67,32,68>>, email |-> <<32>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<45,48,55,51,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65,32,66,32,67,32,68>>, email |-> <<32>>, date |-> <<45,49>>, tz |-> <<90>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65,32,66,32,67,32,68>>, email |-> <<32>>, date |-> <<48,48>>, tz |-> <<120,62>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65,32,66,32,67,32,68>>, email |-> <<97,32>>, date |-> <<48>>, tz |-> <<43,48,48,48,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65,32,66,32,67,32,68>>, email |-> <<97,32>>, date |-> <<49,55,48,48,48,48,48,48,48,48>>, tz |-> <<45,48,55,51,48>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65,32,66,32,67,32,68>>, email |-> <<97,32>>, date |-> <<45,49>>, tz |-> <<90>>]>>, message |-> <<<<109,10>>>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> <<[name |-> <<65,32,66,32,67,32,68>>, email |-> <<97,32>>, date |-> <<48,48>>, tz |-> <<120,62>>]>>, message |-> <<<<109,10>>>>]}
MC_MaxMergetags ==
    0
MC_Sigs ==
    {}
MC_Extras ==
    {}
MC_MaxExtras ==
    0
MC_Messages ==
    {<<109>>}
MC_Damages ==
    {"none"}
MC_DamageBytes ==
    {}
MC_RefLens ==
    {}
MC_Deltas ==
    {}
MC_Reframe ==
    FALSE
====
