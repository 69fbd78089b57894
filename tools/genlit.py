#!/usr/bin/env python3
"""Writes spec/Lit.tla: the byte strings of the git object format, spelled out."""
import os
L = [
 ("BlobSp","blob "),("TreeSp","tree "),("CommitSp","commit "),("TagSp","tag "),
 ("Blob","blob"),("Tree","tree"),("Commit","commit"),("Tag","tag"),
 ("ParentSp","parent "),("AuthorSp","author "),("CommitterSp","committer "),
 ("EncodingSp","encoding "),("MergetagObj","mergetag object "),
 ("ObjectSp","object "),("TypeSp","type "),("TaggerSp","tagger "),
 ("SpType"," type "),("SpTag"," tag "),("SpTagger"," tagger "),
 ("SigBegin","gpgsig -----BEGIN PGP SIGNATURE-----"),
 ("SigEnd"," -----END PGP SIGNATURE-----"),
 ("SpVersion"," Version: "),("SpComment"," Comment: "),
 ("ObjectW","object"),("TypeW","type"),("ParentW","parent"),("EncodingW","encoding"),
 ("MergetagW","mergetag"),("GpgsigW","gpgsig"),
 ("AuthorW","author"),("CommitterW","committer"),("TaggerW","tagger"),
 ("TreeSl","Tree/"),("CommitSl","Commit/"),("ParentsK","parents"),("MessageK","message"),("SignatureK","signature"),("OtherK","other"),
 ("DateK","date"),("TimezoneK","timezone"),("EmailK","email"),("NameK","name"),("ModeK","mode"),("HashK","hash"),
]
out = ["-------------------------------- MODULE Lit --------------------------------",
"\\* Written by tools/genlit.py: the literals of the git object format as bytes.",""]
for n, s in L:
    out.append("L_%s == <<%s>>   \\* %r" % (n, ",".join(str(b) for b in s.encode()), s))
out.append("=" * 77)
open(os.path.join(os.path.dirname(__file__), "../spec/Lit.tla"), "w").write("\n".join(out) + "\n")
