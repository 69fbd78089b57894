------------------------------- MODULE MCSHA1 -------------------------------
(* Known digests, from FIPS 180-4 and from git *)
EXTENDS SHA1, TLC
Digest == <<0>>
A == [i \in 1..3 |-> 96 + i]                       \* "abc"
ASSUME SHA1(A) = <<169,153,62,54,71,6,129,106,186,62,37,113,120,80,194,108,156,208,216,157>>
ASSUME SHA1(<<>>) = <<218,57,163,238,94,107,75,13,50,85,191,239,149,96,24,144,175,216,7,9>>
\* git's empty blob and empty tree
ASSUME SHA1(<<98,108,111,98,32,48,0>>) = <<230,157,226,155,178,209,214,67,75,139,41,174,119,90,216,194,228,140,83,145>>
ASSUME SHA1(<<116,114,101,101,32,48,0>>) = <<75,130,93,198,66,203,110,185,160,96,229,75,248,214,146,136,251,238,73,4>>
ASSUME \A n \in {55, 56, 63, 64, 65, 119, 120} : Len(SHA1([i \in 1..n |-> i])) = 20
VARIABLE x
Init == x = 0
Next == UNCHANGED x
Spec == Init /\ [][Next]_x
=============================================================================
