---- MODULE MCBlocks ----
\* Written by tools/genpools.py
EXTENDS Blocks

MC_Versions ==
    {0, -1}
MC_Codecs ==
    {0, 85, 112, 113, 119, 120, 121, 248, 297, 376, 15480}
MC_Hashes ==
    {0, 17, 18, 19, 22, 145, 45600}
MC_Lengths ==
    {0, 1, 19, 20, 21, 32}
MC_Datas ==
    {<<98,108,111,98,32,48,0>>,
     <<98,108,111,98,32,49,0,120>>,
     <<116,114,101,101,32,48,0>>,
     <<116,114,101,101,32,53,55,0,49,48,48,54,52,52,32,97,0,10,10,10,10,10,10,10,10,10,10,10,10,10,10,10,10,10,10,10,10,52,48,48,48,48,32,98,0,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>,
     <<116,97,103,32,56,55,0,111,98,106,101,99,116,32,52,97,52,98,52,99,52,100,52,101,52,102,53,48,53,49,53,50,53,51,53,52,53,53,53,54,53,55,53,56,53,57,53,97,53,98,53,99,53,100,10,116,121,112,101,32,99,111,109,109,105,116,10,116,97,103,32,118,10,116,97,103,103,101,114,32,65,32,60,97,62,32,49,32,43,48,10,10,109,10>>,
     <<99,111,109,109,105,116,32,56,56,0,116,114,101,101,32,52,97,52,98,52,99,52,100,52,101,52,102,53,48,53,49,53,50,53,51,53,52,53,53,53,54,53,55,53,56,53,57,53,97,53,98,53,99,53,100,10,97,117,116,104,111,114,32,65,32,60,97,62,32,49,32,43,48,10,99,111,109,109,105,116,116,101,114,32,65,32,60,97,62,32,49,32,43,48,10,10,109,10>>,
     <<99,111,109,109,105,116,32,51,48,54,0,116,114,101,101,32,52,97,52,98,52,99,52,100,52,101,52,102,53,48,53,49,53,50,53,51,53,52,53,53,53,54,53,55,53,56,53,57,53,97,53,98,53,99,53,100,10,112,97,114,101,110,116,32,52,97,52,98,52,99,52,100,52,101,52,102,53,48,53,49,53,50,53,51,53,52,53,53,53,54,53,55,53,56,53,57,53,97,53,98,53,99,53,100,10,97,117,116,104,111,114,32,65,32,60,97,62,32,49,32,43,48,10,99,111,109,109,105,116,116,101,114,32,65,32,60,97,62,32,49,32,43,48,10,101,110,99,111,100,105,110,103,32,69,10,109,101,114,103,101,116,97,103,32,111,98,106,101,99,116,32,52,97,52,98,52,99,52,100,52,101,52,102,53,48,53,49,53,50,53,51,53,52,53,53,53,54,53,55,53,56,53,57,53,97,53,98,53,99,53,100,10,32,116,121,112,101,32,99,111,109,109,105,116,10,32,116,97,103,32,118,10,32,10,32,109,10,103,112,103,115,105,103,32,45,45,45,45,45,66,69,71,73,78,32,80,71,80,32,83,73,71,78,65,84,85,82,69,45,45,45,45,45,10,32,10,32,97,98,10,32,45,45,45,45,45,69,78,68,32,80,71,80,32,83,73,71,78,65,84,85,82,69,45,45,45,45,45,10,120,32,121,10,10,109,10,10>>,
     <<>>,
     <<98,108,111,98,32,50,0,120>>,
     <<98,108,111,98,32,49,0,120,121>>,
     <<99,111,109,109,105,116,32,56,56,0,116,114,101,101,32,52,97,52,98,52,99,52,100,52,101,52,102,53,48,53,49,53,50,53,51,53,52,53,53,53,54,53,55,53,56,53,57,53,97,53,98,53,99,53,100,10,97,117,116,104,111,114,32,65,32,60,97,62,32,49,32,43,48,10,99,111,109,109,105,116,116,101,114,32,65,32,60,97,62,32,49,32,43,48,10,10,109>>,
     <<116,114,101,101,32,53,55,0,49,48,48,54,52,52,32,97,0,10,10,10,10,10,10,10,10,10,10,10,10,10,10,10,10,10,10,10,10,52,48,48,48,48,32,98,0,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32>>,
     <<120,156,75,202,201,79,82,48,96,0,0,9,176,1,240>>}
====
