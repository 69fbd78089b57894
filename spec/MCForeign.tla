---- MODULE MCForeign ----
\* Written by tools/genpools.py
EXTENDS Guises

MC_Kinds == {"Commit", "Tag", "Tree"}
MC_Pool(t, key) ==
    CASE FALSE -> {}
      [] t = "Commit" /\ key = <<116,114,101,101>> -> {VLink(GitCid(<<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>)),
          VLink(<<1,85,18,32,7,7,7,7,7,7,7,7,7,7,7,7,7,7,7,7,7,7,7,7,8,8,8,8,8,8,8,8,8,8,8,8>>),
          VLink(<<>>),
          VLink(<<110,111,112,101>>),
          VLink(<<1,120,17,19,74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92>>),
          VLink(<<1,120,18,20,74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>),
          VLink(<<1,120,0,20,74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>),
          VLink(<<18,32,74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93,10,10,10,10,10,10,10,10,10,10,10,10>>),
          VLink(<<1,113,17,20,74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>),
          VLink(<<1,120,17,21,74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93,120>>),
          VLink(<<1,120,17,20,74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92>>),
          VLink(<<1,120>>)}
      [] t = "Commit" /\ key = <<112,97,114,101,110,116,115>> -> {VList(<<>>),
          VList(<<VLink(GitCid(<<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>))>>),
          VList(<<VLink(GitCid(<<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>)), VLink(<<1,85,18,32,7,7,7,7,7,7,7,7,7,7,7,7,7,7,7,7,7,7,7,7,8,8,8,8,8,8,8,8,8,8,8,8>>)>>)}
      [] t = "Commit" /\ key = <<109,101,115,115,97,103,101>> -> {VString(<<109,10>>)}
      [] t = "Commit" /\ key = <<97,117,116,104,111,114>> -> {VMap(<<<<100,97,116,101>>, <<116,105,109,101,122,111,110,101>>, <<101,109,97,105,108>>, <<110,97,109,101>>>>, <<VString(<<49>>), VString(<<43,48,48,48,48>>), VString(<<97,64,98>>), VString(<<65,32,66>>)>>)}
      [] t = "Commit" /\ key = <<99,111,109,109,105,116,116,101,114>> -> {VMap(<<<<100,97,116,101>>, <<116,105,109,101,122,111,110,101>>, <<101,109,97,105,108>>, <<110,97,109,101>>>>, <<VString(<<49>>), VString(<<43,48,48,48,48>>), VString(<<97,64,98>>), VString(<<65,32,66>>)>>)}
      [] t = "Commit" /\ key = <<101,110,99,111,100,105,110,103>> -> {}
      [] t = "Commit" /\ key = <<115,105,103,110,97,116,117,114,101>> -> {}
      [] t = "Commit" /\ key = <<109,101,114,103,101,116,97,103>> -> {VList(<<>>),
          VList(<<VMap(<<<<111,98,106,101,99,116>>,<<116,121,112,101>>,<<116,97,103>>,<<116,97,103,103,101,114>>,<<109,101,115,115,97,103,101>>>>, <<VLink(GitCid(<<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>)),VString(<<99,111,109,109,105,116>>),VString(<<118>>),VMap(<<<<100,97,116,101>>, <<116,105,109,101,122,111,110,101>>, <<101,109,97,105,108>>, <<110,97,109,101>>>>, <<VString(<<49>>), VString(<<43,48,48,48,48>>), VString(<<97,64,98>>), VString(<<65,32,66>>)>>),VString(<<32,109,10>>)>>)>>),
          VList(<<VMap(<<<<111,98,106,101,99,116>>,<<116,121,112,101>>,<<116,97,103>>,<<116,97,103,103,101,114>>,<<109,101,115,115,97,103,101>>>>, <<VLink(<<1,85,18,32,7,7,7,7,7,7,7,7,7,7,7,7,7,7,7,7,7,7,7,7,8,8,8,8,8,8,8,8,8,8,8,8>>),VString(<<116>>),VString(<<110>>),VMap(<<<<100,97,116,101>>, <<116,105,109,101,122,111,110,101>>, <<101,109,97,105,108>>, <<110,97,109,101>>>>, <<VString(<<>>), VString(<<>>), VString(<<>>), VString(<<>>)>>),VString(<<>>)>>)>>),
          VList(<<VMap(<<<<111,98,106,101,99,116>>,<<116,121,112,101>>,<<116,97,103>>,<<116,97,103,103,101,114>>,<<109,101,115,115,97,103,101>>>>, <<VLink(<<>>),VString(<<116>>),VString(<<110>>),VMap(<<<<100,97,116,101>>, <<116,105,109,101,122,111,110,101>>, <<101,109,97,105,108>>, <<110,97,109,101>>>>, <<VString(<<>>), VString(<<>>), VString(<<>>), VString(<<>>)>>),VString(<<>>)>>)>>),
          VList(<<VMap(<<<<111,98,106,101,99,116>>,<<116,121,112,101>>,<<116,97,103>>,<<116,97,103,103,101,114>>,<<109,101,115,115,97,103,101>>>>, <<VLink(<<110,111,112,101>>),VString(<<116>>),VString(<<110>>),VMap(<<<<100,97,116,101>>, <<116,105,109,101,122,111,110,101>>, <<101,109,97,105,108>>, <<110,97,109,101>>>>, <<VString(<<>>), VString(<<>>), VString(<<>>), VString(<<>>)>>),VString(<<>>)>>)>>),
          VList(<<VMap(<<<<111,98,106,101,99,116>>,<<116,121,112,101>>,<<116,97,103>>,<<116,97,103,103,101,114>>,<<109,101,115,115,97,103,101>>>>, <<VLink(<<1,120,17,19,74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92>>),VString(<<116>>),VString(<<110>>),VMap(<<<<100,97,116,101>>, <<116,105,109,101,122,111,110,101>>, <<101,109,97,105,108>>, <<110,97,109,101>>>>, <<VString(<<>>), VString(<<>>), VString(<<>>), VString(<<>>)>>),VString(<<>>)>>)>>)}
      [] t = "Commit" /\ key = <<111,116,104,101,114>> -> {VList(<<>>)}
      [] t = "Tag" /\ key = <<111,98,106,101,99,116>> -> {VLink(GitCid(<<74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>)),
          VLink(GitCid(<<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>)),
          VLink(<<1,85,18,32,7,7,7,7,7,7,7,7,7,7,7,7,7,7,7,7,7,7,7,7,8,8,8,8,8,8,8,8,8,8,8,8>>),
          VLink(<<>>),
          VLink(<<110,111,112,101>>),
          VLink(<<1,120,17,19,74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92>>),
          VLink(<<1,120,18,20,74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>),
          VLink(<<1,120,0,20,74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>),
          VLink(<<18,32,74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93,10,10,10,10,10,10,10,10,10,10,10,10>>),
          VLink(<<1,113,17,20,74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>),
          VLink(<<1,120,17,21,74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93,120>>),
          VLink(<<1,120,17,20,74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92>>),
          VLink(<<1,120>>)}
      [] t = "Tag" /\ key = <<116,121,112,101>> -> {VString(<<99,111,109,109,105,116>>)}
      [] t = "Tag" /\ key = <<116,97,103>> -> {VString(<<118,49>>)}
      [] t = "Tag" /\ key = <<116,97,103,103,101,114>> -> {VMap(<<<<100,97,116,101>>, <<116,105,109,101,122,111,110,101>>, <<101,109,97,105,108>>, <<110,97,109,101>>>>, <<VString(<<49>>), VString(<<43,48,48,48,48>>), VString(<<97,64,98>>), VString(<<65,32,66>>)>>)}
      [] t = "Tag" /\ key = <<109,101,115,115,97,103,101>> -> {VString(<<109>>)}
      [] t = "Tree" /\ key = <<97>> -> {VMap(<<<<109,111,100,101>>, <<104,97,115,104>>>>, <<VString(<<49,48,48,54,52,52>>), VLink(GitCid(<<171,0,10,32,255,171,0,10,32,255,171,0,10,32,255,171,0,10,32,255>>))>>),
          VMap(<<<<109,111,100,101>>, <<104,97,115,104>>>>, <<VString(<<49,48,48,54,52,52>>), VLink(<<1,85,18,32,7,7,7,7,7,7,7,7,7,7,7,7,7,7,7,7,7,7,7,7,8,8,8,8,8,8,8,8,8,8,8,8>>)>>),
          VMap(<<<<109,111,100,101>>, <<104,97,115,104>>>>, <<VString(<<49,48,48,54,52,52>>), VLink(<<>>)>>),
          VMap(<<<<109,111,100,101>>, <<104,97,115,104>>>>, <<VString(<<49,48,48,54,52,52>>), VLink(<<110,111,112,101>>)>>),
          VMap(<<<<109,111,100,101>>, <<104,97,115,104>>>>, <<VString(<<49,48,48,54,52,52>>), VLink(<<1,120,17,19,74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92>>)>>),
          VMap(<<<<109,111,100,101>>, <<104,97,115,104>>>>, <<VString(<<49,48,48,54,52,52>>), VLink(<<1,120,18,20,74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>)>>),
          VMap(<<<<109,111,100,101>>, <<104,97,115,104>>>>, <<VString(<<49,48,48,54,52,52>>), VLink(<<1,120,0,20,74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>)>>),
          VMap(<<<<109,111,100,101>>, <<104,97,115,104>>>>, <<VString(<<49,48,48,54,52,52>>), VLink(<<18,32,74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93,10,10,10,10,10,10,10,10,10,10,10,10>>)>>),
          VMap(<<<<109,111,100,101>>, <<104,97,115,104>>>>, <<VString(<<49,48,48,54,52,52>>), VLink(<<1,113,17,20,74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93>>)>>),
          VMap(<<<<109,111,100,101>>, <<104,97,115,104>>>>, <<VString(<<49,48,48,54,52,52>>), VLink(<<1,120,17,21,74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93,120>>)>>),
          VMap(<<<<109,111,100,101>>, <<104,97,115,104>>>>, <<VString(<<49,48,48,54,52,52>>), VLink(<<1,120,17,20,74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92>>)>>),
          VMap(<<<<109,111,100,101>>, <<104,97,115,104>>>>, <<VString(<<49,48,48,54,52,52>>), VLink(<<1,120>>)>>)}
      [] t = "Tree" /\ key = <<98>> -> {VMap(<<<<109,111,100,101>>, <<104,97,115,104>>>>, <<VString(<<52,48,48,48,48>>), VLink(GitCid(<<10,10,10,10,10,10,10,10,10,10,10,10,10,10,10,10,10,10,10,10>>))>>)}
MC_Scalars(t) == {}
MC_Orders(t) ==
    CASE FALSE -> {}
      [] t = "Commit" -> {<<<<116,114,101,101>>, <<112,97,114,101,110,116,115>>, <<109,101,115,115,97,103,101>>, <<97,117,116,104,111,114>>, <<99,111,109,109,105,116,116,101,114>>, <<101,110,99,111,100,105,110,103>>, <<115,105,103,110,97,116,117,114,101>>, <<109,101,114,103,101,116,97,103>>, <<111,116,104,101,114>>>>}
      [] t = "Tag" -> {<<<<111,98,106,101,99,116>>, <<116,121,112,101>>, <<116,97,103>>, <<116,97,103,103,101,114>>, <<109,101,115,115,97,103,101>>>>}
      [] t = "Tree" -> {<<<<97>>, <<98>>>>}
MC_Forms == {"type", "repr", "typerepr", "any"}
MC_Faults == {"none"}
====
