---- MODULE MCBuilding ----
\* Written by tools/genpools.py
EXTENDS Building

MC_Roots ==
    {"String",
     "Link",
     "String_List",
     "PersonInfo",
     "GpgSig",
     "Tag",
     "Tag_List",
     "Commit",
     "Commit_Link",
     "Commit_Link_List",
     "Blob",
     "Tree",
     "TreeEntry",
     "Tree_Link"}
MC_Keys ==
    [ty \in MapTypes |-> CASE ty = "Tree" -> {<<97>>,
     <<98>>} [] ty = "TreeEntry" -> {<<109,111,100,101>>,
     <<104,97,115,104>>,
     <<110,111,112,101>>} [] ty = "PersonInfo" -> {<<100,97,116,101>>,
     <<110,97,109,101>>,
     <<110,111,112,101>>} [] ty = "Tag" -> {<<111,98,106,101,99,116>>,
     <<116,97,103,103,101,114>>,
     <<>>} [] ty = "Commit" -> {<<116,114,101,101>>,
     <<97,117,116,104,111,114>>,
     <<109,101,114,103,101,116,97,103>>,
     <<110,111,112,101>>}]
MC_MaxEntries ==
    2
MC_Shallow ==
    FALSE
MC_Strange ==
    {VNull,
     Scalar("int", <<55>>),
     Scalar("bool", <<116>>),
     Scalar("float", <<49>>),
     Sample("String"),
     Sample("Blob"),
     Sample("Link"),
     VMap(<<>>, <<>>),
     VList(<<>>),
     VList(<<VNull>>),
     VList(<<Sample("Tag"), VList(<<>>)>>),
     VMap(<<<<100,97,116,101>>>>, <<VNull>>),
     VMap(<<<<100,97,116,101>>, <<100,97,116,101>>>>, <<VString(<<115>>), VString(<<115>>)>>),
     VMap(<<<<111,98,106,101,99,116>>, <<110,111,112,101>>>>, <<Sample("Link"), VString(<<115>>)>>),
     VMap(<<<<122>>, <<122>>>>, <<Sample("TreeEntry"), Sample("TreeEntry")>>),
     VMap(<<<<109,111,100,101>>, <<104,97,115,104>>>>, <<VString(<<115>>), VString(<<115>>)>>)}
====
