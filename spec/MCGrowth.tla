---- MODULE MCGrowth ----
\* Written by tools/genpools.py
EXTENDS Growth

MC_Claims ==
    {"0",
     "5",
     "512",
     "4096",
     "65536",
     "999999",
     "9999999",
     "33554432",
     "268435456",
     "2147483647",
     "2147483648",
     "9999999999",
     "1099511627776",
     "9223372036854775807"}
MC_Kinds ==
    {"blob", "tree", "commit", "tag"}
MC_Amounts ==
    {0, 1, 5, 512, 4096, 65536, 300000}
MC_First ==
    16
MC_Copies ==
    20
====
