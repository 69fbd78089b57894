---- MODULE MCSession ----
\* Written by tools/genpools.py
EXTENDS Session

MC_Bufs ==
    <<<<99,111,109,109,105,116,32,51,48,54,0,116,114,101,101,32,52,97,52,98,52,99,52,100,52,101,52,102,53,48,53,49,53,50,53,51,53,52,53,53,53,54,53,55,53,56,53,57,53,97,53,98,53,99,53,100,10,112,97,114,101,110,116,32,52,97,52,98,52,99,52,100,52,101,52,102,53,48,53,49,53,50,53,51,53,52,53,53,53,54,53,55,53,56,53,57,53,97,53,98,53,99,53,100,10,97,117,116,104,111,114,32,65,32,60,97,62,32,49,32,43,48,10,99,111,109,109,105,116,116,101,114,32,65,32,60,97,62,32,49,32,43,48,10,101,110,99,111,100,105,110,103,32,69,10,109,101,114,103,101,116,97,103,32,111,98,106,101,99,116,32,52,97,52,98,52,99,52,100,52,101,52,102,53,48,53,49,53,50,53,51,53,52,53,53,53,54,53,55,53,56,53,57,53,97,53,98,53,99,53,100,10,32,116,121,112,101,32,99,111,109,109,105,116,10,32,116,97,103,32,118,10,32,10,32,109,10,103,112,103,115,105,103,32,45,45,45,45,45,66,69,71,73,78,32,80,71,80,32,83,73,71,78,65,84,85,82,69,45,45,45,45,45,10,32,10,32,97,98,10,32,45,45,45,45,45,69,78,68,32,80,71,80,32,83,73,71,78,65,84,85,82,69,45,45,45,45,45,10,120,32,121,10,10,109,10,10>>, <<116,114,101,101,32,53,55,0,49,48,48,54,52,52,32,97,0,10,10,10,10,10,10,10,10,10,10,10,10,10,10,10,10,10,10,10,10,52,48,48,48,48,32,98,0,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>, <<116,97,103,32,56,55,0,111,98,106,101,99,116,32,52,97,52,98,52,99,52,100,52,101,52,102,53,48,53,49,53,50,53,51,53,52,53,53,53,54,53,55,53,56,53,57,53,97,53,98,53,99,53,100,10,116,121,112,101,32,99,111,109,109,105,116,10,116,97,103,32,118,10,116,97,103,103,101,114,32,65,32,60,97,62,32,49,32,43,48,10,10,109,10>>>>
MC_Alphabet ==
    {[op |-> "dec", i |-> 0, n |-> 0, ty |-> "", form |-> "buffer", key |-> <<>>, val |-> VAbsent],
     [op |-> "dec", i |-> 0, n |-> 0, ty |-> "", form |-> "bufio", key |-> <<>>, val |-> VAbsent],
     [op |-> "dec", i |-> 0, n |-> 0, ty |-> "", form |-> "any", key |-> <<>>, val |-> VAbsent],
     [op |-> "dec", i |-> 1, n |-> 0, ty |-> "", form |-> "buffer", key |-> <<>>, val |-> VAbsent],
     [op |-> "dec", i |-> 1, n |-> 0, ty |-> "", form |-> "reader", key |-> <<>>, val |-> VAbsent],
     [op |-> "dec", i |-> 2, n |-> 0, ty |-> "", form |-> "zip", key |-> <<>>, val |-> VAbsent],
     [op |-> "scribble", i |-> 0, n |-> 0, ty |-> "", form |-> "", key |-> <<>>, val |-> VAbsent],
     [op |-> "scribble", i |-> 1, n |-> 0, ty |-> "", form |-> "", key |-> <<>>, val |-> VAbsent],
     [op |-> "enc", i |-> 0, n |-> 0, ty |-> "", form |-> "", key |-> <<>>, val |-> VAbsent],
     [op |-> "enc", i |-> 1, n |-> 0, ty |-> "", form |-> "", key |-> <<>>, val |-> VAbsent],
     [op |-> "part", i |-> 0, n |-> 0, ty |-> "", form |-> "", key |-> <<97,117,116,104,111,114>>, val |-> VAbsent],
     [op |-> "part", i |-> 0, n |-> 0, ty |-> "", form |-> "", key |-> <<109,101,114,103,101,116,97,103>>, val |-> VAbsent],
     [op |-> "part", i |-> 0, n |-> 0, ty |-> "", form |-> "", key |-> <<98>>, val |-> VAbsent],
     [op |-> "build", i |-> 0, n |-> 0, ty |-> "Commit", form |-> "", key |-> <<>>, val |-> VAbsent],
     [op |-> "build", i |-> 0, n |-> 0, ty |-> "Tree", form |-> "", key |-> <<>>, val |-> VAbsent],
     [op |-> "build", i |-> 0, n |-> 0, ty |-> "Tag", form |-> "", key |-> <<>>, val |-> VAbsent],
     [op |-> "rebuild", i |-> 0, n |-> 0, ty |-> "", form |-> "", key |-> <<>>, val |-> VAbsent],
     [op |-> "rebuild", i |-> 1, n |-> 0, ty |-> "", form |-> "", key |-> <<>>, val |-> VAbsent],
     [op |-> "make", i |-> 0, n |-> 0, ty |-> "Commit", form |-> "", key |-> <<>>, val |-> VMap(<<<<116,114,101,101>>, <<112,97,114,101,110,116,115>>, <<109,101,115,115,97,103,101>>, <<97,117,116,104,111,114>>, <<99,111,109,109,105,116,116,101,114>>, <<109,101,114,103,101,116,97,103>>, <<111,116,104,101,114>>>>, <<VLink(GitCid(<<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>)), VList(<<VLink(GitCid(<<10,10,10,10,10,10,10,10,10,10,10,10,10,10,10,10,10,10,10,10>>))>>), VString(<<111,116,104,101,114,10>>), VMap(<<<<100,97,116,101>>, <<116,105,109,101,122,111,110,101>>, <<101,109,97,105,108>>, <<110,97,109,101>>>>, <<VString(<<49>>), VString(<<43,48,48,48,48>>), VString(<<97,64,98>>), VString(<<65,32,66>>)>>), VMap(<<<<110,97,109,101>>,<<101,109,97,105,108>>,<<100,97,116,101>>,<<116,105,109,101,122,111,110,101>>>>, <<VString(<<78>>),VString(<<101>>),VString(<<50>>),VString(<<45,49>>)>>), VList(<<>>), VList(<<>>)>>)],
     [op |-> "make", i |-> 0, n |-> 0, ty |-> "Tree", form |-> "", key |-> <<>>, val |-> VMap(<<<<122>>>>, <<VMap(<<<<109,111,100,101>>, <<104,97,115,104>>>>, <<VString(<<49,48,48,54,52,52>>), VLink(GitCid(<<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>))>>)>>)],
     [op |-> "make", i |-> 0, n |-> 0, ty |-> "Tag", form |-> "", key |-> <<>>, val |-> VMap(<<<<111,98,106,101,99,116>>, <<116,121,112,101>>, <<116,97,103>>, <<116,97,103,103,101,114>>, <<109,101,115,115,97,103,101>>>>, <<VLink(GitCid(<<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>)), VString(<<99,111,109,109,105,116>>), VString(<<118>>), VMap(<<<<100,97,116,101>>, <<116,105,109,101,122,111,110,101>>, <<101,109,97,105,108>>, <<110,97,109,101>>>>, <<VString(<<49>>), VString(<<43,48,48,48,48>>), VString(<<97,64,98>>), VString(<<65,32,66>>)>>), VString(<<32,109,10>>)>>)],
     [op |-> "redec", i |-> 0, n |-> 0, ty |-> "", form |-> "", key |-> <<>>, val |-> VAbsent],
     [op |-> "redec", i |-> 1, n |-> 0, ty |-> "", form |-> "", key |-> <<>>, val |-> VAbsent],
     [op |-> "graft", i |-> 0, n |-> 0, ty |-> "Commit", form |-> "", key |-> <<109,101,115,115,97,103,101>>, val |-> VString(<<103,114,97,102,116,101,100>>)],
     [op |-> "graft", i |-> 0, n |-> 0, ty |-> "Tag", form |-> "", key |-> <<116,97,103,103,101,114>>, val |-> VMap(<<<<100,97,116,101>>, <<116,105,109,101,122,111,110,101>>, <<101,109,97,105,108>>, <<110,97,109,101>>>>, <<VString(<<48>>), VString(<<90>>), VString(<<>>), VString(<<>>)>>)],
     [op |-> "graft", i |-> 0, n |-> 0, ty |-> "Commit", form |-> "", key |-> <<109,101,114,103,101,116,97,103>>, val |-> VList(<<>>)]}
MC_Depth ==
    4
====
