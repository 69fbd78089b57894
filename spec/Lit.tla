-------------------------------- MODULE Lit --------------------------------
\* Written by tools/genlit.py: the literals of the git object format as bytes.

L_BlobSp == <<98,108,111,98,32>>   \* 'blob '
L_TreeSp == <<116,114,101,101,32>>   \* 'tree '
L_CommitSp == <<99,111,109,109,105,116,32>>   \* 'commit '
L_TagSp == <<116,97,103,32>>   \* 'tag '
L_Blob == <<98,108,111,98>>   \* 'blob'
L_Tree == <<116,114,101,101>>   \* 'tree'
L_Commit == <<99,111,109,109,105,116>>   \* 'commit'
L_Tag == <<116,97,103>>   \* 'tag'
L_ParentSp == <<112,97,114,101,110,116,32>>   \* 'parent '
L_AuthorSp == <<97,117,116,104,111,114,32>>   \* 'author '
L_CommitterSp == <<99,111,109,109,105,116,116,101,114,32>>   \* 'committer '
L_EncodingSp == <<101,110,99,111,100,105,110,103,32>>   \* 'encoding '
L_MergetagObj == <<109,101,114,103,101,116,97,103,32,111,98,106,101,99,116,32>>   \* 'mergetag object '
L_ObjectSp == <<111,98,106,101,99,116,32>>   \* 'object '
L_TypeSp == <<116,121,112,101,32>>   \* 'type '
L_TaggerSp == <<116,97,103,103,101,114,32>>   \* 'tagger '
L_SpType == <<32,116,121,112,101,32>>   \* ' type '
L_SpTag == <<32,116,97,103,32>>   \* ' tag '
L_SpTagger == <<32,116,97,103,103,101,114,32>>   \* ' tagger '
L_SigBegin == <<103,112,103,115,105,103,32,45,45,45,45,45,66,69,71,73,78,32,80,71,80,32,83,73,71,78,65,84,85,82,69,45,45,45,45,45>>   \* 'gpgsig -----BEGIN PGP SIGNATURE-----'
L_SigEnd == <<32,45,45,45,45,45,69,78,68,32,80,71,80,32,83,73,71,78,65,84,85,82,69,45,45,45,45,45>>   \* ' -----END PGP SIGNATURE-----'
L_SpVersion == <<32,86,101,114,115,105,111,110,58,32>>   \* ' Version: '
L_SpComment == <<32,67,111,109,109,101,110,116,58,32>>   \* ' Comment: '
L_ObjectW == <<111,98,106,101,99,116>>   \* 'object'
L_TypeW == <<116,121,112,101>>   \* 'type'
L_ParentW == <<112,97,114,101,110,116>>   \* 'parent'
L_EncodingW == <<101,110,99,111,100,105,110,103>>   \* 'encoding'
L_MergetagW == <<109,101,114,103,101,116,97,103>>   \* 'mergetag'
L_GpgsigW == <<103,112,103,115,105,103>>   \* 'gpgsig'
L_AuthorW == <<97,117,116,104,111,114>>   \* 'author'
L_CommitterW == <<99,111,109,109,105,116,116,101,114>>   \* 'committer'
L_TaggerW == <<116,97,103,103,101,114>>   \* 'tagger'
L_TreeSl == <<84,114,101,101,47>>   \* 'Tree/'
L_CommitSl == <<67,111,109,109,105,116,47>>   \* 'Commit/'
L_ParentsK == <<112,97,114,101,110,116,115>>   \* 'parents'
L_MessageK == <<109,101,115,115,97,103,101>>   \* 'message'
L_SignatureK == <<115,105,103,110,97,116,117,114,101>>   \* 'signature'
L_OtherK == <<111,116,104,101,114>>   \* 'other'
L_DateK == <<100,97,116,101>>   \* 'date'
L_TimezoneK == <<116,105,109,101,122,111,110,101>>   \* 'timezone'
L_EmailK == <<101,109,97,105,108>>   \* 'email'
L_NameK == <<110,97,109,101>>   \* 'name'
L_ModeK == <<109,111,100,101>>   \* 'mode'
L_HashK == <<104,97,115,104>>   \* 'hash'
=============================================================================
