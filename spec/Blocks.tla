------------------------------- MODULE Blocks -------------------------------
(***************************************************************************)
(* A block arrives: some bytes under some CID.  It is decoded as a git     *)
(* object only if the CID is one that git objects have.                    *)
(*                                                                         *)
(* Checked: the decision depends on the CID alone as long as it is not     *)
(* git's; for git's CIDs it is the parser's (Parsed); and what is accepted *)
(* can be found again under the links of this codec (Own).                 *)
(***************************************************************************)
EXTENDS Schema, TLC, Json

CONSTANTS Versions, Codecs, Hashes, Lengths, Datas

VARIABLES cid, data, st, res
vars == <<cid, data, st, res>>

\* Unsigned varint
RECURSIVE Var(_)
Var(n) == IF n < 128 THEN <<n>> ELSE <<128 + (n % 128)>> \o Var(n \div 128)

Filler(n) == [i \in 1..n |-> (i * 37) % 256]
CidV1(codec, mh, n) == <<1>> \o Var(codec) \o Var(mh) \o Var(n) \o Filler(n)
CidV0 == <<18, 32>> \o Filler(32)

Cids == {CidV1(c, m, n) : c \in Codecs, m \in Hashes, n \in Lengths}
        \cup (IF 0 \in Versions THEN {CidV0} ELSE {})
        \cup (IF -1 \in Versions THEN {<<>>} ELSE {})

IsGits(c) == LET p == ParseCid(c)
             IN  p.ok /\ p.version = 1 /\ p.codec = GitCodecCode /\ p.mh = Sha1Code /\ p.len = HashLen

Init == cid \in Cids /\ data \in Datas /\ st = "arrived" /\ res = <<>>

CheckCid == /\ st = "arrived"
            /\ st' = IF IsGits(cid) THEN "parse" ELSE "refused"
            /\ UNCHANGED <<cid, data, res>>

Parse == /\ st = "parse"
         /\ LET r == Run(data, "eof")
            IN  /\ st' = IF r.ph = "ok" THEN "accepted" ELSE "refused"
                /\ res' = IF r.ph = "ok" THEN <<r.obj>> ELSE <<>>
         /\ UNCHANGED <<cid, data>>

Report == /\ st \in {"accepted", "refused"}
          /\ st' = "done"
          /\ PrintT(<<"V", ToJson([cid |-> cid, data |-> data])>>)
          /\ UNCHANGED <<cid, data, res>>

Next == CheckCid \/ Parse \/ Report
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Parsed == st = "done" => (res # <<>> <=> IsGits(cid) /\ Run(data, "eof").ph = "ok")
Own == res # <<>> => IsGitCid(cid) /\ cid = GitCid(Digest(cid))
Decided == <>(st = "done")
=============================================================================
