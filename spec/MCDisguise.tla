---- MODULE MCDisguise ----
\* Written by tools/genpools.py
EXTENDS Guises

MC_Kinds == {"Commit", "Tag", "Tree"}
MC_Pool(t, key) ==
    CASE FALSE -> {}
      [] t = "Commit" /\ key = <<116,114,101,101>> -> {VLink(GitCid(<<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>))}
      [] t = "Commit" /\ key = <<112,97,114,101,110,116,115>> -> {VList(<<VLink(GitCid(<<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>)), VLink(GitCid(<<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>))>>)}
      [] t = "Commit" /\ key = <<109,101,115,115,97,103,101>> -> {VString(<<109,10>>)}
      [] t = "Commit" /\ key = <<97,117,116,104,111,114>> -> {VMap(<<<<100,97,116,101>>, <<116,105,109,101,122,111,110,101>>, <<101,109,97,105,108>>, <<110,97,109,101>>>>, <<VString(<<49>>), VString(<<43,48,48,48,48>>), VString(<<97,64,98>>), VString(<<65,32,66>>)>>)}
      [] t = "Commit" /\ key = <<99,111,109,109,105,116,116,101,114>> -> {VMap(<<<<110,97,109,101>>,<<101,109,97,105,108>>,<<100,97,116,101>>,<<116,105,109,101,122,111,110,101>>>>, <<VString(<<78>>),VString(<<101>>),VString(<<50>>),VString(<<45,49>>)>>)}
      [] t = "Commit" /\ key = <<101,110,99,111,100,105,110,103>> -> {VString(<<69>>)}
      [] t = "Commit" /\ key = <<115,105,103,110,97,116,117,114,101>> -> {VString(<<32,10,32,97,98,10>>)}
      [] t = "Commit" /\ key = <<109,101,114,103,101,116,97,103>> -> {VList(<<>>),
          VList(<<VMap(<<<<111,98,106,101,99,116>>,<<116,121,112,101>>,<<116,97,103>>,<<116,97,103,103,101,114>>,<<109,101,115,115,97,103,101>>>>, <<VLink(GitCid(<<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>)),VString(<<99,111,109,109,105,116>>),VString(<<118>>),VMap(<<<<100,97,116,101>>, <<116,105,109,101,122,111,110,101>>, <<101,109,97,105,108>>, <<110,97,109,101>>>>, <<VString(<<49>>), VString(<<43,48,48,48,48>>), VString(<<97,64,98>>), VString(<<65,32,66>>)>>),VString(<<32,109,10>>)>>), VMap(<<<<111,98,106,101,99,116>>,<<116,121,112,101>>,<<116,97,103>>,<<116,97,103,103,101,114>>,<<109,101,115,115,97,103,101>>>>, <<VLink(GitCid(<<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>)),VString(<<>>),VString(<<>>),VMap(<<<<100,97,116,101>>, <<116,105,109,101,122,111,110,101>>, <<101,109,97,105,108>>, <<110,97,109,101>>>>, <<VString(<<>>), VString(<<>>), VString(<<>>), VString(<<>>)>>),VString(<<>>)>>)>>)}
      [] t = "Commit" /\ key = <<111,116,104,101,114>> -> {VList(<<VString(<<120,32,121>>), VString(<<32,122>>)>>)}
      [] t = "Tag" /\ key = <<111,98,106,101,99,116>> -> {VLink(GitCid(<<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>))}
      [] t = "Tag" /\ key = <<116,121,112,101>> -> {VString(<<99,111,109,109,105,116>>),
          VString(<<>>)}
      [] t = "Tag" /\ key = <<116,97,103>> -> {VString(<<118,49>>)}
      [] t = "Tag" /\ key = <<116,97,103,103,101,114>> -> {VMap(<<<<100,97,116,101>>, <<116,105,109,101,122,111,110,101>>, <<101,109,97,105,108>>, <<110,97,109,101>>>>, <<VString(<<49>>), VString(<<43,48,48,48,48>>), VString(<<97,64,98>>), VString(<<65,32,66>>)>>),
          VMap(<<<<100,97,116,101>>, <<116,105,109,101,122,111,110,101>>, <<101,109,97,105,108>>, <<110,97,109,101>>>>, <<VString(<<>>), VString(<<>>), VString(<<>>), VString(<<>>)>>)}
      [] t = "Tag" /\ key = <<109,101,115,115,97,103,101>> -> {VString(<<109,10>>),
          VString(<<>>)}
      [] t = "Tree" /\ key = <<97>> -> {VMap(<<<<109,111,100,101>>, <<104,97,115,104>>>>, <<VString(<<49,48,48,54,52,52>>), VLink(GitCid(<<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>))>>)}
      [] t = "Tree" /\ key = <<>> -> {VMap(<<<<109,111,100,101>>, <<104,97,115,104>>>>, <<VString(<<>>), VLink(GitCid(<<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>))>>)}
      [] t = "Tree" /\ key = <<111,98,106,101,99,116>> -> {VMap(<<<<109,111,100,101>>, <<104,97,115,104>>>>, <<VString(<<49>>), VLink(GitCid(<<10,10,10,10,10,10,10,10,10,10,10,10,10,10,10,10,10,10,10,10>>))>>),
          VMap(<<<<104,97,115,104>>, <<109,111,100,101>>>>, <<VLink(GitCid(<<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>)), VString(<<52,48,48,48,48>>)>>)}
MC_Scalars(t) == {}
MC_Orders(t) ==
    CASE FALSE -> {}
      [] t = "Commit" -> {<<<<116,114,101,101>>, <<112,97,114,101,110,116,115>>, <<109,101,115,115,97,103,101>>, <<97,117,116,104,111,114>>, <<99,111,109,109,105,116,116,101,114>>, <<101,110,99,111,100,105,110,103>>, <<115,105,103,110,97,116,117,114,101>>, <<109,101,114,103,101,116,97,103>>, <<111,116,104,101,114>>>>,
     <<<<97,117,116,104,111,114>>, <<99,111,109,109,105,116,116,101,114>>, <<101,110,99,111,100,105,110,103>>, <<109,101,114,103,101,116,97,103>>, <<109,101,115,115,97,103,101>>, <<111,116,104,101,114>>, <<112,97,114,101,110,116,115>>, <<115,105,103,110,97,116,117,114,101>>, <<116,114,101,101>>>>}
      [] t = "Tag" -> {<<<<111,98,106,101,99,116>>, <<116,121,112,101>>, <<116,97,103>>, <<116,97,103,103,101,114>>, <<109,101,115,115,97,103,101>>>>,
     <<<<109,101,115,115,97,103,101>>, <<116,97,103,103,101,114>>, <<116,97,103>>, <<116,121,112,101>>, <<111,98,106,101,99,116>>>>,
     <<<<109,101,115,115,97,103,101>>, <<111,98,106,101,99,116>>, <<116,97,103>>, <<116,97,103,103,101,114>>, <<116,121,112,101>>>>,
     <<<<116,97,103>>, <<116,121,112,101>>, <<111,98,106,101,99,116>>, <<116,97,103,103,101,114>>, <<109,101,115,115,97,103,101>>>>}
      [] t = "Tree" -> {<<<<97>>, <<>>, <<111,98,106,101,99,116>>>>,
     <<<<111,98,106,101,99,116>>, <<97>>, <<>>>>}
MC_Forms == {"foreign", "optional", "bind", "bindrepr", "mixed"}
MC_Faults == {"none", "null"}
====
