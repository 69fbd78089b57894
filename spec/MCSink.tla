---- MODULE MCSink ----
\* Written by tools/genpools.py
EXTENDS Sink

MC_Objs ==
    {[t |-> "blob", bytes |-> <<98,108,111,98,32,52,0,97,98,99,100>>],
     [t |-> "tree", entries |-> <<>>],
     [t |-> "tree", entries |-> <<[name |-> <<97>>, mode |-> <<49>>, hash |-> <<10,10,10,10,10,10,10,10,10,10,10,10,10,10,10,10,10,10,10,10>>], [name |-> <<98>>, mode |-> <<52,48,48,48,48>>, hash |-> <<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>]>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99,111,109,109,105,116>>, tag |-> <<118>>, tagger |-> [name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>], message |-> <<109,10>>],
     [t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<>>, tag |-> <<>>, tagger |-> [name |-> <<>>, email |-> <<>>, date |-> <<>>, tz |-> <<>>], message |-> <<>>],
     [t |-> "commit", tree |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, parents |-> <<>>, message |-> <<109>>, author |-> <<>>, committer |-> <<>>, encoding |-> <<>>, signature |-> <<>>, mergetag |-> <<>>, other |-> <<>>],
     [t |-> "commit", tree |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, parents |-> <<<<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>>>, message |-> <<109>>, author |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, committer |-> <<[name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>]>>, encoding |-> <<<<69>>>>, signature |-> <<<<32,10,32,97,98,10>>>>, mergetag |-> <<[t |-> "tag", object |-> <<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>, type |-> <<99>>, tag |-> <<118>>, tagger |-> [name |-> <<65>>, email |-> <<97>>, date |-> <<49>>, tz |-> <<43,48>>], message |-> <<32,109,10>>]>>, other |-> <<<<120,32,121>>>>]}
====
