---- MODULE MCHistory ----
\* Written by tools/genpools.py
EXTENDS History

MC_Templates ==
    {[ty |-> "Blob", form |-> "type", val |-> VBytes(<<98,108,111,98,32,49,0,120>>)],
     [ty |-> "Blob", form |-> "repr", val |-> VBytes(<<98,108,111,98,32,48,0>>)],
     [ty |-> "Tree", form |-> "type", val |-> VMap(<<>>, <<>>)],
     [ty |-> "Tree", form |-> "repr", val |-> VMap(<<<<97>>>>, <<VMap(<<<<109,111,100,101>>, <<104,97,115,104>>>>, <<VString(<<49,48,48,54,52,52>>), VLink(<<0, 0>>)>>)>>)],
     [ty |-> "Tree", form |-> "type", val |-> VMap(<<<<98>>, <<97>>>>, <<VMap(<<<<109,111,100,101>>, <<104,97,115,104>>>>, <<VString(<<49,48,48,54,52,52>>), VLink(<<0, 1>>)>>), VMap(<<<<109,111,100,101>>, <<104,97,115,104>>>>, <<VString(<<49,48,48,54,52,52>>), VLink(<<0, 0>>)>>)>>)],
     [ty |-> "Commit", form |-> "type", val |-> VMap(<<<<116,114,101,101>>, <<112,97,114,101,110,116,115>>, <<109,101,115,115,97,103,101>>, <<97,117,116,104,111,114>>, <<99,111,109,109,105,116,116,101,114>>, <<109,101,114,103,101,116,97,103>>, <<111,116,104,101,114>>>>, <<VLink(<<0, 0>>), VList(<<>>), VString(<<109,10>>), VMap(<<<<100,97,116,101>>, <<116,105,109,101,122,111,110,101>>, <<101,109,97,105,108>>, <<110,97,109,101>>>>, <<VString(<<49>>), VString(<<43,48,48,48,48>>), VString(<<97,64,98>>), VString(<<65,32,66>>)>>), VMap(<<<<110,97,109,101>>,<<101,109,97,105,108>>,<<100,97,116,101>>,<<116,105,109,101,122,111,110,101>>>>, <<VString(<<78>>),VString(<<101>>),VString(<<50>>),VString(<<45,49>>)>>), VList(<<>>), VList(<<>>)>>)],
     [ty |-> "Commit", form |-> "typerepr", val |-> VMap(<<<<116,114,101,101>>, <<112,97,114,101,110,116,115>>, <<109,101,115,115,97,103,101>>, <<97,117,116,104,111,114>>, <<99,111,109,109,105,116,116,101,114>>, <<109,101,114,103,101,116,97,103>>, <<111,116,104,101,114>>>>, <<VLink(<<0, 0>>), VList(<<VLink(<<0, 1>>)>>), VString(<<109,10>>), VMap(<<<<100,97,116,101>>, <<116,105,109,101,122,111,110,101>>, <<101,109,97,105,108>>, <<110,97,109,101>>>>, <<VString(<<49>>), VString(<<43,48,48,48,48>>), VString(<<97,64,98>>), VString(<<65,32,66>>)>>), VMap(<<<<110,97,109,101>>,<<101,109,97,105,108>>,<<100,97,116,101>>,<<116,105,109,101,122,111,110,101>>>>, <<VString(<<78>>),VString(<<101>>),VString(<<50>>),VString(<<45,49>>)>>), VList(<<>>), VList(<<>>)>>)],
     [ty |-> "Commit", form |-> "type", val |-> VMap(<<<<116,114,101,101>>, <<112,97,114,101,110,116,115>>, <<109,101,115,115,97,103,101>>, <<97,117,116,104,111,114>>, <<99,111,109,109,105,116,116,101,114>>, <<109,101,114,103,101,116,97,103>>, <<111,116,104,101,114>>>>, <<VLink(<<0, 0>>), VList(<<>>), VString(<<109,10>>), VMap(<<<<100,97,116,101>>, <<116,105,109,101,122,111,110,101>>, <<101,109,97,105,108>>, <<110,97,109,101>>>>, <<VString(<<49>>), VString(<<43,48,48,48,48>>), VString(<<97,64,98>>), VString(<<65,32,66>>)>>), VMap(<<<<110,97,109,101>>,<<101,109,97,105,108>>,<<100,97,116,101>>,<<116,105,109,101,122,111,110,101>>>>, <<VString(<<78>>),VString(<<101>>),VString(<<50>>),VString(<<45,49>>)>>), VList(<<VMap(<<<<111,98,106,101,99,116>>, <<116,121,112,101>>, <<116,97,103>>, <<116,97,103,103,101,114>>, <<109,101,115,115,97,103,101>>>>, <<VLink(<<0, 1>>), VString(<<99,111,109,109,105,116>>), VString(<<118>>), VMap(<<<<100,97,116,101>>, <<116,105,109,101,122,111,110,101>>, <<101,109,97,105,108>>, <<110,97,109,101>>>>, <<VString(<<49>>), VString(<<43,48,48,48,48>>), VString(<<97,64,98>>), VString(<<65,32,66>>)>>), VString(<<32,109,10>>)>>)>>), VList(<<>>)>>)],
     [ty |-> "Tag", form |-> "type", val |-> VMap(<<<<111,98,106,101,99,116>>, <<116,121,112,101>>, <<116,97,103>>, <<116,97,103,103,101,114>>, <<109,101,115,115,97,103,101>>>>, <<VLink(<<0, 0>>), VString(<<99,111,109,109,105,116>>), VString(<<118>>), VMap(<<<<100,97,116,101>>, <<116,105,109,101,122,111,110,101>>, <<101,109,97,105,108>>, <<110,97,109,101>>>>, <<VString(<<49>>), VString(<<43,48,48,48,48>>), VString(<<97,64,98>>), VString(<<65,32,66>>)>>), VString(<<32,109,10>>)>>)]}
MC_Puts ==
    3
====
