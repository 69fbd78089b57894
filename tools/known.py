#!/usr/bin/env python3
"""Writes known-findings.txt (not run by any check)."""
import json, os
OUT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "known-findings.txt")
H = b"0123456789abcdef0123456789abcdef01234567"
P = b"A <a> 1 +0000"
def fr(t, body): return t + b" %d\0" % len(body) + body
def dec(inp): return {"module": "TraceDecode", "k": "dec", "src": "known", "inp": list(inp), "cut": "eof", "ch": [], "with": False, "eps": "all", "outs": []}
def other(k, module, key, val, inp=b""):
    d = dict(dec(inp), module=module, k=k)
    if key: d[key] = val
    return d
def S(k, s): return {"k": k, "s": list(s), "ks": [], "vs": []}
def st(s): return S("string", s)
def M(**kw): return {"k": "map", "s": [], "ks": [list(k.encode()) for k in kw], "vs": list(kw.values())}
LINK = S("link", bytes([1, 0x78, 0x11, 20]) + bytes.fromhex(H.decode()))
ENTRY = M(mode=st(b"100644"), hash=LINK)
PERS = M(date=st(b"1"), timezone=st(b"+0000"), email=st(b"a"), name=st(b"A"))
LIST = {"k": "list", "s": [], "ks": [], "vs": []}
def asm(ty, *cmds):
    c0 = {"op": "", "key": [], "val": M(), "form": "", "ty": "", "i": 0, "n": 0}
    return other("asm", "TraceAssembler", "asm", {"ty": ty, "form": "type", "cmds": [dict(c0, op=o, **kw) for o, kw in cmds]})
TREE = b"tree " + H + b"\n"
COMMIT = TREE + b"author " + P + b"\ncommitter " + P + b"\n"
TAG = b"object " + H + b"\ntype commit\ntag v\n"
MT = b"mergetag object " + H + b"\n type commit\n tag v\n tagger " + P + b"\n"
known = [
 ("C03", "nobody", dec(fr(b"commit", COMMIT)), "a commit that ends with its headers, without the empty line, is encoded with one"),
 ("C03", "order", dec(fr(b"commit", TREE + b"committer " + P + b"\nauthor " + P + b"\n\nm\n")), "header lines out of git's order are encoded in git's order"),
 ("C04", "cr", dec(fr(b"commit", COMMIT + b"gpgsig -----BEGIN PGP SIGNATURE-----\r\n \r\n ab\r\n -----END PGP SIGNATURE-----\r\n\nm\n")), "the carriage return at the marker lines of a signature is lost"),
 ("C04", "mtheader", dec(fr(b"commit", COMMIT + MT + b" x y\n \n m\n\nm\n")), "an unknown header of a mergetag is lost"),
 ("C04", "mtnobody", dec(fr(b"commit", COMMIT + MT + b"\nm\n")), "a mergetag that ends with its headers gains an empty line"),
 ("C04", "sigfirst", dec(fr(b"commit", COMMIT + b"gpgsig -----BEGIN PGP SIGNATURE-----\n Hash: SHA256\n \n ab\n -----END PGP SIGNATURE-----\n\nm\n")), "a signature that starts with an armor header other than Version and Comment is rejected"),
 ("C05", "tagheader", dec(fr(b"tag", TAG + b"tagger " + P + b"\nx y\n\nm\n")), "an unknown header of a tag is lost"),
 ("C05", "emptymsg", dec(fr(b"tag", TAG + b"tagger " + P + b"\n\n")), "the empty line of a tag with an empty message is lost"),
 ("C06", "person", dec(fr(b"commit", TREE + b"author A  <a>  1 +0000\ncommitter " + P + b"\n\nm\n")), "other spaces around the email or date than git writes, and words after the zone, are lost"),
 ("C08", "hexcase", dec(fr(b"commit", COMMIT.replace(b"abcdef", b"ABCDEF") + b"\nm\n")), "upper case hexadecimal digits are accepted and encoded in lower case"),
 ("C08", "missing", dec(fr(b"tag", b"object " + H + b"\n\nm\n")), "a tag without type or tag header is accepted and encoded with one"),
 ("C08", "nolf", dec(fr(b"commit", (COMMIT + b"x y"))), "a last header line without line feed is accepted and encoded with one"),
 ("C08", "notagger", dec(fr(b"tag", TAG + b"tagger  <>\n\nm\n")), "a tagger line with nothing in it is accepted and lost"),
 ("C10", "basicmap", other("wrong", "TraceEntry", None, None, fr(b"tree", b"1 a\0" + b"a" * 20)), "decoding into go-ipld-prime's map builder panics there (plainMap.AssignNode)"),
 ("C13", "lookup", other("view", "TraceView", "w", {"ty": "Tree", "form": "type", "keys": False, "val": M(a=ENTRY), "ask": []}), "Tree.LookupByNode with a string node of another package, and LookupByIndex of a negative index in a list, panic"),
 ("C14", "assignnode", asm("Commit", ("node", dict(form="any", val=M(tree=LINK, parents=LIST, message=st(b"m"), author=PERS, committer=PERS, mergetag=LIST, other=LIST)))), "builders of trees, and of commits with author or committer, panic in AssignNode of a node of another package or a representation"),
 ("C14", "repeatedkey", asm("Tree", ("begmap", {}), *[("key", {}), ("keystr", dict(key=list(b"a"))), ("value", {}), ("assign", dict(val=ENTRY))] * 2, ("finish", {}), ("build", {})), "a tree's builder takes a key twice by way of AssembleKey"),
 ("C15", "generictree", other("enc", "TraceEncode", "e", {"ty": "Tree", "form": "any", "via": "", "keys": False, "val": M(a=ENTRY)}), "a generic map that holds a tree is refused by the encoder"),
 ("C15", "lenient", other("enc", "TraceEncode", "e", {"ty": "Tag", "form": "any", "via": "", "keys": False,
    "val": M(object=LINK, type=st(b"commit"), tag=st(b"v"), tagger=PERS, message=st(b"m"), extra=st(b"x"))}), "a generic map with a tag's fields and others is encoded as the tag"),
]
fixed = [
 ("C03", "706b764", "commits without author or committer panicked when encoded"),
 ("C15", "8ff8753", "commits given as a representation or generic node could not be encoded"),
 ("C15", "549f458", "a generic tag was recognised only if its first key was \"object\""),
 ("C09", "f58d532", "encoding a list panicked"),
 ("C08", "ef18d26", "a tree that ends inside an entry was accepted without the entry"),
 ("C03", "c068816", "header lines over 4 KiB were split and carriage returns at their ends lost"),
 ("C06", "1fd25d8", "spaces a person's name starts with were lost"),
 ("C04", "07f8c37", "a mergetag without message swallowed the next commit header"),
 ("C05", "4e8507d", "a tag without tagger gained an empty tagger line"),
 ("C07", "16855c4", "links that do not name git objects were written as garbage, or panicked"),
 ("C08", "aeefd54", "a commit without tree or a tag without object gave a node that cannot be encoded"),
 ("C10", "3bbe786", "decoding into another type's builder panicked"),
 ("C04", "1d28e0c", "commits with signatures that are not PGP (SSH, X.509) could not be decoded"),
 ("C10", "8fe522c", "a compressed object with a wrong or missing checksum was accepted"),
 ("C08", "81749fe", "objects longer or shorter than their header says were accepted"),
 ("C09", "7708752", "many mergetags exhausted the stack"),
]
with open(OUT, "w") as f:
    f.write("""Genuine defects of go-ipld-git that the checks have found.

known: not repaired. The case (hex of its JSON form) is run by the check of the property,
which prints a KNOWN-FINDING line as long as it shows; the specification names the same
deviation (Dev in GitCodec.tla, class K of the judges), so that nothing else is let through.
fixed: repaired in /repo. Suppresses nothing.

""")
    for p, i, c, w in known:
        if isinstance(c, dict): c = [c]
        for x in c: f.write("known: property=%s id=%s case=%s %s\n" % (p, i, json.dumps(x, separators=(",", ":")).encode().hex(), w))
    f.write("\n")
    for p, c, w in fixed: f.write("fixed: property=%s %s %s\n" % (p, c, w))
