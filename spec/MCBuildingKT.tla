---- MODULE MCBuildingKT ----
\* Written by tools/genpools.py
EXTENDS Building

MC_Roots ==
    {"PersonInfo", "Tag", "Commit", "Tree", "TreeEntry"}
MC_Keys ==
    [ty \in MapTypes |-> CASE ty = "Tree" -> {<<97>>,
     <<98>>,
     <<>>,
     <<109,111,100,101>>} [] ty = "TreeEntry" -> {<<109,111,100,101>>,
     <<104,97,115,104>>,
     <<110,111,112,101>>} [] ty = "PersonInfo" -> {<<100,97,116,101>>,
     <<116,105,109,101,122,111,110,101>>,
     <<101,109,97,105,108>>,
     <<110,97,109,101>>,
     <<110,111,112,101>>} [] ty = "Tag" -> {<<111,98,106,101,99,116>>,
     <<116,121,112,101>>,
     <<116,97,103>>,
     <<116,97,103,103,101,114>>,
     <<109,101,115,115,97,103,101>>,
     <<110,111,112,101>>} [] ty = "Commit" -> {<<116,114,101,101>>,
     <<112,97,114,101,110,116,115>>,
     <<109,101,115,115,97,103,101>>,
     <<97,117,116,104,111,114>>,
     <<99,111,109,109,105,116,116,101,114>>,
     <<101,110,99,111,100,105,110,103>>,
     <<115,105,103,110,97,116,117,114,101>>,
     <<109,101,114,103,101,116,97,103>>,
     <<111,116,104,101,114>>,
     <<110,111,112,101>>}]
MC_MaxEntries ==
    3
MC_Shallow ==
    TRUE
MC_Strange ==
    {}
====
