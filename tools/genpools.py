#!/usr/bin/env python3
"""Writes spec/MC*.tla and .cfg: GitObjects with the sets of values to build objects
from, one module and configuration per subject."""
import os
OUT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "../spec")

def b(x):
    if isinstance(x, str): x = x.encode()
    return "<<" + ",".join(str(c) for c in x) + ">>"
def st(xs): return "{" + ",\n     ".join(xs) + "}"
def bs(*xs): return st([b(x) for x in xs])
def person(n, e, d, z): return "[name |-> %s, email |-> %s, date |-> %s, tz |-> %s]" % (b(n), b(e), b(d), b(z))
def H(*cs): return bytes((list(cs) * 20)[:20])
def tag(h, ty, n, tagger, msg):
    return ("[t |-> \"tag\", object |-> %s, type |-> %s, tag |-> %s, tagger |-> %s, message |-> %s]" %
            (b(h), b(ty), b(n), "<<>>" if tagger is None else "<<" + tagger + ">>", "<<>>" if msg is None else "<<" + b(msg) + ">>"))
def extra(k, v): return "[key |-> %s, val |-> %s]" % (b(k), b(v))

A = person("A U Thor", "a@b.c", "1700000000", "+0100")
SHORT = person("A", "a", "1", "+0")
H0, H1, H2, H3 = H(0), H(10), H(32), H(*range(0x4a, 0x5e))
HX = H(0xab, 0, 0x0a, 0x20, 0xff)
SIG = "-----BEGIN PGP SIGNATURE-----\n\niQ\n=ab\n-----END PGP SIGNATURE-----"
SIGV = "-----BEGIN PGP SIGNATURE-----\nVersion: G\n\niQ\n-----END PGP SIGNATURE-----"
SIG0 = "-----BEGIN PGP SIGNATURE-----\n\n-----END PGP SIGNATURE-----"
SIGC = "-----BEGIN PGP SIGNATURE-----\nComment: -----END\n\ntree x\n -----END PGP SIGNATURE-----\n-----END PGP SIGNATURE-----"

DEF = dict(Kinds=st([]), Contents=st([]), Hashes=bs(H3), Names=st([]), Modes=st([]), MaxEntries="0",
           Persons=st([SHORT]), MaxParents="0", OptAuthor="FALSE", Encodings=st([]), Tags=st([]), MaxMergetags="0",
           Sigs=st([]), Extras=st([]), MaxExtras="0", Messages=bs("m"), Damages='{"none"}', DamageBytes="{}", RefLens="{}", Deltas="{}", Reframe="FALSE")

def words(alpha, n):
    out = [b""]
    cur = [b""]
    for _ in range(n):
        cur = [x + bytes([a]) for x in cur for a in alpha]
        out += cur
    return out

NAMES = ["a", "b", "a b", "a/b", ".", "", " ", "\n", "a\n", b"\xff", "\u00e9", "object", "mode", "1", "A", "a.c", "-"]
MODES = ["100644", "40000", "040000", "", "120000", "1", "160000"]

persons = []
for n in ["", "A", "A B", "A  B", " A", "A ", "a>b", "a<b", "> x", b"\xff\xc3", ".", "A B C D"]:
    for e in ["", "a", "a b", "a@b", "a  b", "a<b", b"\xfe", " ", "a "]:
        persons.append((n, e))
DATES = [("0", "+0000"), ("1700000000", "-0730"), ("-1", "Z"), ("00", "x>")]

def tags(hs, types, names, taggers, msgs):
    return [tag(h, t, n, g, m) for h in hs for t in types for n in names for g in taggers for m in msgs]

MSGS = ["m", "m\n", "\n", "\n\n", " ", " m\n", "m\r\n", "tree x\n", "\nm", b"\xff\x00\n", "object x\n", "a\n\nb\n", "gpgsig -----BEGIN PGP SIGNATURE-----\n"]

MC = {}
def mc(name, props=(), **kw):
    d = dict(DEF); d.update(kw); MC[name] = d

mc("Blob", Kinds='{"blob"}', Contents=bs(*(words([0, 10, 32, 98], 5) + [b"x" * n for n in (9, 10, 11, 99, 100, 101, 255, 256, 999, 1000, 1001, 4095, 4096, 4097)]
   + [b"blob 3\0abc", b"tree 0\0", b"\0" * 20, bytes(range(256))] + [bytes([c]) for c in range(256)])))
mc("Tree", Kinds='{"tree"}', Hashes=bs(H0, HX), Names=bs(*NAMES[:12]), Modes=bs(*MODES[:4]), MaxEntries="2")
mc("Tree3", Kinds='{"tree"}', Hashes=bs(H1), Names=bs("a", "b", "", " ", b"\xff", "a.c"), Modes=bs("100644", "040000"), MaxEntries="4")
mc("TreeT", Kinds='{"tree"}', Hashes=bs(H0, H1, H2, HX), Names=bs(*NAMES), Modes=bs(*MODES), MaxEntries="2")
mc("Commit", Kinds='{"commit"}', Hashes=bs(H3, HX), MaxParents="2", OptAuthor="TRUE", Persons=st([SHORT]), Encodings=bs("UTF-8", ""),
   Extras=st([extra("x", "y"), extra("x", "y\nz"), extra("gpgsig", "-----BEGIN SSH SIGNATURE-----\nab\n-----END SSH SIGNATURE-----")]), MaxExtras="2", Messages=bs(*MSGS[:9], ""))
mc("CommitT", Kinds='{"commit"}', Hashes=bs(H3, HX), MaxParents="3", OptAuthor="TRUE", Persons=st([SHORT, A]), Encodings=bs("UTF-8", ""),
   Extras=st([extra("x", "y"), extra("", ""), extra("HG:extra", "a\nb"), extra("gpgsig", "-----BEGIN SSH SIGNATURE-----\nab\n-----END SSH SIGNATURE-----")]), MaxExtras="2", Messages=bs(*MSGS, ""))
MT = tags([H3], ["commit"], ["v1", ""], [None, SHORT], ["m\n", "", "\nm", "a\n\n b\n", "gpgsig -----BEGIN PGP SIGNATURE-----\n"])
mc("Embed", Kinds='{"commit"}', Hashes=bs(HX), Encodings=bs("E"), Tags=st(MT), MaxMergetags="2", Sigs=bs(SIG, SIGV, SIG0, SIGC),
   Extras=st([extra("x", "y"), extra("z", "1\n2")]), MaxExtras="1", Messages=bs("m\n", ""))
mc("EmbedT", Kinds='{"commit"}', Hashes=bs(HX), MaxParents="1", Encodings=bs("E"), Tags=st(tags([H0], ["commit"], ["v"], [None, SHORT], ["m\n", "", "\n", "a\n\n b\n"])),
   MaxMergetags="3", Sigs=bs(SIG, SIGV, SIG0, SIGC), Extras=st([extra("x", "y"), extra("z", "1\n2")]), MaxExtras="2", Messages=bs("m\n", "", " -----END PGP SIGNATURE-----\n"))
TAGM = [None] + MSGS
mc("Tag", Kinds='{"tag"}', Tags=st(tags([H3, HX], ["commit", "", "a b", "tree"], ["v1", "", "\u00e9 x", "object x"], [None, SHORT, A], TAGM)))
mc("TagT", Kinds='{"tag"}', Tags=st(tags([H0, HX], ["commit", "", "blob", b"\xff"], ["v1", "", " ", "\r"],
   [None, SHORT, A, person("", "e", "0", "+0")], TAGM)))
def pcommit(ps): return dict(Kinds='{"commit", "tag"}', Hashes=bs(H3), Persons=st(ps), Messages=bs("m"))
P4 = [person(n, e, d, z) for (n, e) in persons for (d, z) in DATES]
mc("Person", Kinds='{"tag"}', Tags=st([tag(H3, "commit", "v", p, "m\n") for p in P4]))
mc("Person2", Kinds='{"commit"}', Persons=st([person(n, e, "5", "+0") for (n, e) in persons]))
mc("Links", Kinds='{"tree", "commit", "tag"}', Hashes=st([b(H(c)) for c in (0, 9, 10, 13, 32, 48, 60, 65, 97, 127, 128, 255)] + [b(HX), b(H3), b(bytes(range(236, 256)))]), Names=bs("a", "b"), Modes=bs("100644"), MaxEntries="1", MaxParents="1",
   Tags=st([tag(H(c), "commit", "v", SHORT, "m") for c in (0, 10, 32, 65, 255)]))
REFS = dict(Kinds='{"commit", "tag"}', Hashes=st([b(bytes([0x4a] * 20)), b(HX)]), MaxParents="2", Tags=st(tags([HX], ["commit"], ["v"], [SHORT], ["m\n"])), MaxMergetags="1",
   Messages=bs("m\n"), RefLens="(0..44) \\cup {64, 80}", DamageBytes="(0..255) \\ (48..57)", Damages='{"none", "stretch", "spoil"}', Reframe="TRUE")
mc("Refs", **{**REFS, "RefLens": "{0, 1, 2, 20, 38, 39, 41, 42, 44, 64, 80}", "DamageBytes": "{0, 10, 13, 32, 45, 47, 58, 64, 65, 70, 71, 96, 102, 103, 128, 255}", "MaxParents": "1"})
mc("RefsT", **REFS)
# damage: a few short objects of each kind
DT = tags([H3], ["commit"], ["v"], [SHORT], ["m\n"])
mc("CutD", Kinds='{"blob", "tree", "commit", "tag"}', Contents=bs("", "a", "ab\0c\n"), Hashes=bs(HX), Names=bs("a", "b"), Modes=bs("100644", "40000"), MaxEntries="2",
   MaxParents="1", OptAuthor="TRUE", Encodings=bs("E"), Tags=st(DT), MaxMergetags="1", Sigs=bs(SIG), Extras=st([extra("x", "y")]), MaxExtras="1", Messages=bs("m\n"), Damages='{"cut"}')
mc("CutR", **{**MC["CutD"], "Reframe": "TRUE"})
SM = dict(Kinds='{"blob", "tree", "commit", "tag"}', Contents=bs("ab"), Hashes=bs(H3), Names=bs("a"), Modes=bs("100644"), MaxEntries="1",
   Tags=st(DT), Messages=bs("m\n"), Damages='{"none", "set", "insert", "delete"}', DamageBytes="{0, 10, 13, 32, 48, 60, 62, 65, 97, 255}")
mc("ByteD", **SM)
mc("ByteR", **{**SM, "Reframe": "TRUE"})
STEPS = [2 ** i for i in range(4, 17)] + [100, 1000, 10000, 20, 21, 40, 41, 46, 48]
CL = dict(Kinds='{"blob", "tree", "commit", "tag"}', Contents=bs("", "a", "abcdefghi", "x" * 4096), Hashes=bs(H3), Names=bs("a", "b"), Modes=bs("100644"), MaxEntries="2",
   Tags=st(DT), MaxMergetags="1", Messages=bs("", "m\n"), Damages='{"none", "claim"}')
mc("Claim", **CL, Deltas="{%s}" % ", ".join(str(x) for x in sorted({s + e for s in STEPS for e in (-1, 0, 1)} | set(range(-12, 13)) | {-4096, -4095, 2 ** 20, 2 ** 30, 2 ** 31 - 5000})))
mc("ClaimT", **CL, Deltas="((-300)..1300) \\cup {%s}" % ", ".join(str(x) for x in sorted({k * s + e for s in STEPS for k in (1, 2, 3, 5, 7) for e in (-1, 0, 1)} | {-4096, -4095, 2 ** 20, 2 ** 30, 2 ** 31 - 5000})))
LN = dict(Kinds='{"commit", "tag"}', Hashes=bs(H3), MaxParents="1", Encodings=bs("E"), Tags=st(DT), MaxMergetags="1", Sigs=bs(SIG),
   Extras=st([extra("x", "y")]), MaxExtras="1", Messages=bs("m\n"), Damages='{"dropline", "dupline", "swapline", "cutline"}', Reframe="TRUE")
mc("LineR", **LN)

for name, d in MC.items():
    with open(os.path.join(OUT, "MC%s.tla" % name), "w") as f:
        f.write("---- MODULE MC%s ----\n\\* Written by tools/genpools.py\nEXTENDS GitObjects\n\n" % name)
        for k, v in d.items():
            f.write("MC_%s ==\n    %s\n" % (k, v))
        f.write("====\n")
    with open(os.path.join(OUT, "MC%s.cfg" % name), "w") as f:
        f.write("SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS\n")
        for k in d: f.write("  %s <- MC_%s\n" % (k, k))
        f.write("INVARIANTS Accepted RightNode RoundTrip RunAgrees NothingLost CutNoticed ClaimNoticed Injective Safe ReadAll\nPROPERTY ReadsOn\n")

# --- Guises: values by entry
import itertools
def vs(x): return "VString(%s)" % b(x)
def lk(h): return "VLink(GitCid(%s))" % b(h)
def cidlk(*parts): return "VLink(%s)" % b(b"".join(bytes(p) if not isinstance(p, bytes) else p for p in parts))
def vm(**kw): return "VMap(<<%s>>, <<%s>>)" % (", ".join(b(k) for k in kw), ", ".join(kw.values()))
def vl(*xs): return "VList(<<%s>>)" % ", ".join(xs)
def vperson(n, e, d, z): return vm(date=vs(d), timezone=vs(z), email=vs(e), name=vs(n))
P1, P2, P0 = vperson("A B", "a@b", "1", "+0000"), vperson("", "", "0", "Z"), vperson("", "", "", "")
P3 = "VMap(<<%s>>, <<%s>>)" % (",".join(b(k) for k in ("name", "email", "date", "timezone")), ",".join(vs(x) for x in ("N", "e", "2", "-1")))
def vtag(h, t, n, p, m): return "VMap(<<%s>>, <<%s>>)" % (",".join(b(k) for k in ("object", "type", "tag", "tagger", "message")), ",".join((lk(h), vs(t), vs(n), p, vs(m))))
T1, T2 = vtag(H3, "commit", "v", P1, " m\n"), vtag(HX, "", "", P0, "")
FOR = [cidlk([1, 0x55, 0x12, 32], H(7)[:20], H(8)[:12]), cidlk(b""), cidlk(b"nope"), cidlk([1, 0x78, 0x11, 19], H3[:19]), cidlk([1, 0x78, 0x12, 20], H3),
       cidlk([1, 0x78, 0, 20], H3), cidlk([18, 32], H3, H1[:12]), cidlk([1, 0x71, 0x11, 20], H3), cidlk([1, 0x78, 0x11, 21], H3, b"x"),
       cidlk([1, 0x78, 0x11, 20], H3[:19]), cidlk([1, 0x78])]
FIELDS = {"Tag": ["object", "type", "tag", "tagger", "message"], "TreeEntry": ["mode", "hash"], "PersonInfo": ["date", "timezone", "email", "name"],
          "Commit": ["tree", "parents", "message", "author", "committer", "encoding", "signature", "mergetag", "other"]}
def orders(ty, some=None):
    ks = FIELDS[ty]
    if some is None: ps = list(itertools.permutations(ks))
    else:
        ps = [tuple(ks), tuple(reversed(ks)), tuple(sorted(ks)), tuple(sorted(ks, key=lambda k: (len(k), k)))] + [tuple(ks[i:] + ks[:i]) for i in some]
    return st(["<<%s>>" % ", ".join(b(k) for k in p) for p in dict.fromkeys(ps)])
COMMITPOOL = dict(tree=[lk(H3)], parents=[vl(), vl(lk(HX), lk(H3))], message=[vs("m\n")], author=[P1], committer=[P3], encoding=[vs("E")],
                  signature=[vs(" \n ab\n")], mergetag=[vl(), vl(T1, T2)], other=[vl(), vl(vs("x y"), vs(" z"))])
TAGPOOL = dict(object=[lk(H3)], type=[vs("commit"), vs("")], tag=[vs("v1")], tagger=[P1, P0], message=[vs("m\n"), vs("")])
TREEPOOL = {"a": [vm(mode=vs("100644"), hash=lk(H3))], "": [vm(mode=vs(""), hash=lk(HX))], "object": [vm(mode=vs("1"), hash=lk(H1)), vm(hash=lk(H0), mode=vs("40000"))]}
LINKC = dict(COMMITPOOL, tree=[lk(H3)] + FOR, parents=[vl(), vl(lk(HX)), vl(lk(H3), FOR[0])], author=[P1], committer=[P1], encoding=[], signature=[], other=[vl()],
             mergetag=[vl(), vl(T1)] + [vl(vtag(H3, "t", "n", P0, "").replace(lk(H3), f)) for f in FOR[:4]])
LINKT = dict(TAGPOOL, object=[lk(H3), lk(H0)] + FOR, type=[vs("commit")], message=[vs("m")], tagger=[P1])
LINKTREE = {"a": [vm(mode=vs("100644"), hash=h) for h in [lk(HX)] + FOR], "b": [vm(mode=vs("40000"), hash=lk(H1))]}
def guises(name, kinds, pools, ords, forms, faults, scal=None):
    with open(os.path.join(OUT, "MC%s.tla" % name), "w") as f:
        f.write("---- MODULE MC%s ----\n\\* Written by tools/genpools.py\nEXTENDS Guises\n\n" % name)
        f.write("MC_Kinds == {%s}\n" % ", ".join('"%s"' % k for k in kinds))
        f.write("MC_Pool(t, key) ==\n    CASE FALSE -> {}\n")
        for t, pl in pools.items():
            for k, v in pl.items():
                f.write("      [] t = \"%s\" /\\ key = %s -> {%s}\n" % (t, b(k), ",\n          ".join(v)))
        f.write("MC_Scalars(t) == {%s}\n" % ", ".join(scal or []))
        f.write("MC_Orders(t) ==\n    CASE FALSE -> {}\n")
        for t, o in ords.items(): f.write("      [] t = \"%s\" -> %s\n" % (t, o))
        f.write("MC_Forms == {%s}\nMC_Faults == {%s}\n====\n" % (", ".join('"%s"' % x for x in forms), ", ".join('"%s"' % x for x in faults)))
    with open(os.path.join(OUT, "MC%s.cfg" % name), "w") as f:
        f.write("SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS\n")
        for k in ("Kinds", "Pool", "Scalars", "Orders", "Forms", "Faults"): f.write("  %s <- MC_%s\n" % (k, k))
        f.write("INVARIANTS OneEncoding Encodable Survives Value TrueLength NoDisguise\n")
ALLF = ["type", "repr", "typerepr", "any", "keys", "json", "cbor"]
GEN = ["any", "anyjson", "anycbor"]
TREEORD = st(["<<%s>>" % ", ".join(b(k) for k in p) for p in (("a", "", "object"), ("object", "a", ""))])
guises("Guise", ["Blob", "Tree", "Commit", "Tag"], {"Commit": COMMITPOOL, "Tag": TAGPOOL, "Tree": TREEPOOL},
       {"Commit": orders("Commit", []), "Tag": orders("Tag"), "Tree": TREEORD}, ALLF, ["none"], ["VBytes(%s)" % b(x) for x in ("", "blob 1\0x", "blob 2\0x", "abc", "tree 0\0")])
ONE = {k: v[-1:] for k, v in COMMITPOOL.items()}
guises("Faulty", ["Commit", "Tag", "Tree", "TreeEntry", "PersonInfo", "String", "Link", "Commit_Link_List", "Tag_List"], {"Commit": ONE, "Tag": TAGPOOL, "Tree": TREEPOOL,
        "TreeEntry": dict(mode=[vs("1")], hash=[lk(H3)]), "PersonInfo": dict(date=[vs("1")], timezone=[vs("2")], email=[vs("3")], name=[vs("4")])},
       {"Commit": orders("Commit", []), "Tag": orders("Tag", []), "Tree": TREEORD, "TreeEntry": orders("TreeEntry"), "PersonInfo": orders("PersonInfo", [])},
       ["type", "repr", "any", "keys", "anycbor"], ["none", "drop", "extra", "twice", "null", "kind"], [vs("x"), lk(H3), vl(), vl(lk(H3)), vl(T1), vl(vs("x")), "VNull", "VBytes(<<0>>)"])
DIS = ["foreign", "optional", "bind", "bindrepr", "mixed"]
guises("Disguise", ["Commit", "Tag", "Tree"], {"Commit": dict(COMMITPOOL, parents=COMMITPOOL["parents"][1:], other=COMMITPOOL["other"][1:]), "Tag": TAGPOOL, "Tree": TREEPOOL},
       {"Commit": orders("Commit", [])[0:0] + st(["<<%s>>" % ", ".join(b(k) for k in o) for o in (FIELDS["Commit"], sorted(FIELDS["Commit"]))]), "Tag": orders("Tag", []), "Tree": TREEORD}, DIS, ["none", "null"])
guises("Foreign", ["Commit", "Tag", "Tree"], {"Commit": LINKC, "Tag": LINKT, "Tree": LINKTREE},
       {"Commit": orders("Commit", [])[0:0] + st(["<<%s>>" % ", ".join(b(k) for k in FIELDS["Commit"])]), "Tag": st(["<<%s>>" % ", ".join(b(k) for k in FIELDS["Tag"])]),
        "Tree": st(["<<%s>>" % ", ".join(b(k) for k in ("a", "b"))])}, ["type", "repr", "typerepr", "any"], ["none"])

# --- Stream and Sink
def obj_tree(*es): return "[t |-> \"tree\", entries |-> <<%s>>]" % ", ".join("[name |-> %s, mode |-> %s, hash |-> %s]" % (b(n), b(m), b(h)) for n, m, h in es)
def plain(module, name, consts, tail):
    with open(os.path.join(OUT, "MC%s.tla" % name), "w") as f:
        f.write("---- MODULE MC%s ----\n\\* Written by tools/genpools.py\nEXTENDS %s\n\n" % (name, module))
        for k, v in consts.items(): f.write("MC_%s ==\n    %s\n" % (k, v))
        f.write("====\n")
    with open(os.path.join(OUT, "MC%s.cfg" % name), "w") as f:
        f.write("SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS\n")
        for k in consts: f.write("  %s <- MC_%s\n" % (k, k))
        f.write(tail + "\n")
def fr(t, body): return t + b" %d\0" % len(body) + body
x40 = H3.hex().encode()
TREE2 = fr(b"tree", b"100644 a\0" + H1 + b"40000 b\0" + HX)
TAG1 = fr(b"tag", b"object " + x40 + b"\ntype commit\ntag v\ntagger A <a> 1 +0\n\nm\n")
COM1 = fr(b"commit", b"tree " + x40 + b"\nauthor A <a> 1 +0\ncommitter A <a> 1 +0\n\nm\n")
COM2 = fr(b"commit", b"tree " + x40 + b"\nparent " + x40 + b"\nauthor A <a> 1 +0\ncommitter A <a> 1 +0\nencoding E\nmergetag object " + x40 + b"\n type commit\n tag v\n \n m\ngpgsig -----BEGIN PGP SIGNATURE-----\n \n ab\n -----END PGP SIGNATURE-----\nx y\n\nm\n\n")
BAD = [b"blob 3\0ab", b"blob 1\0ab", b"tree 4\0100", b"commit 2\0\n\n", fr(b"tag", b"object 12\n"), b"blob x\0", b"blah 1\0", fr(b"commit", b"tree " + x40 + b"\ngpgsig -----BEGIN PGP SIGNATURE-----\n \n")]
STAIL = "INVARIANTS OneResult FaultSurfaces Causal\nPROPERTY Terminates"
plain("Stream", "Stream", dict(Inputs=bs(b"blob 0\0", b"blob 5\0a\0\nb ", TREE2, b"tree 0\0", TAG1, COM1, COM2, *BAD), Pieces="{1, 2, 16, 1000}"), STAIL)
plain("Stream", "StreamT", dict(Inputs=bs(b"blob 0\0", b"blob 12\0a\0\nb 123456\n", TREE2, fr(b"tree", b"1 \n\0" + H1 + b"1 \0" + H0), TAG1, COM1, COM2, *BAD), Pieces="{1, 2, 3, 4, 5, 7, 16, 20, 33, 64, 1000}"), STAIL)
PN, P5 = person("", "", "", ""), person("A", "a", "1", "+0")
def obj_tag(h, t, n, p, m): return "[t |-> \"tag\", object |-> %s, type |-> %s, tag |-> %s, tagger |-> %s, message |-> %s]" % (b(h), b(t), b(n), p, b(m))
def obj_commit(**kw):
    d = dict(tree=b(H3), parents="<<>>", message=b("m"), author="<<>>", committer="<<>>", encoding="<<>>", signature="<<>>", mergetag="<<>>", other="<<>>"); d.update(kw)
    return "[t |-> \"commit\", %s]" % ", ".join("%s |-> %s" % kv for kv in d.items())
SOBJ = ["[t |-> \"blob\", bytes |-> %s]" % b(b"blob 4\0abcd"), obj_tree(), obj_tree(("a", "1", H1), ("b", "40000", HX)), obj_tag(H3, "commit", "v", P5, "m\n"), obj_tag(H3, "", "", PN, ""),
        obj_commit(), obj_commit(parents="<<%s>>" % b(HX), author="<<%s>>" % P5, committer="<<%s>>" % P5, encoding="<<%s>>" % b("E"), signature="<<%s>>" % b(" \n ab\n"),
                                 mergetag="<<%s>>" % obj_tag(H3, "c", "v", P5, " m\n"), other="<<%s>>" % b("x y"))]
plain("Sink", "Sink", dict(Objs=st(SOBJ)), "INVARIANTS Prefix Honest Objective\nPROPERTY Returns")

# --- Growth
CLAIMS = ["0", "5", "512", "4096", "65536", "999999", "9999999", "33554432", "268435456", "2147483647", "2147483648", "9999999999", "1099511627776", "9223372036854775807"]
plain("Growth", "Growth", dict(Claims=st(['"%s"' % c for c in CLAIMS]), Kinds='{"blob", "tree", "commit", "tag"}', Amounts="{0, 1, 5, 512, 4096, 65536, 300000}", First="16", Copies="20"), "INVARIANTS InBudget Amortised")

# --- Blocks
BAG = [b"blob 0\0", b"blob 1\0x", b"tree 0\0", TREE2, TAG1, COM1, COM2, b"", b"blob 2\0x", b"blob 1\0xy", COM1[:-1], TREE2[:-1], b"\x78\x9c\x4b\xca\xc9\x4f\x52\x30\x60\x00\x00\x09\xb0\x01\xf0"]
plain("Blocks", "Blocks", dict(Versions="{0, -1}", Codecs="{0, 85, 112, 113, 119, 120, 121, 248, 297, 376, 15480}", Hashes="{0, 17, 18, 19, 22, 145, 45600}", Lengths="{0, 1, 19, 20, 21, 32}", Datas=bs(*BAG)), "INVARIANTS Parsed Own\nPROPERTY Decided")

# --- History: objects that refer to each other
def hole(i): return "VLink(<<0, %d>>)" % i
def vkm(*kv): return "VMap(<<%s>>, <<%s>>)" % (", ".join(b(k) for k, _ in kv), ", ".join(v for _, v in kv))
def ent(h): return vkm(("mode", vs("100644")), ("hash", h))
def vcommit(tree, parents, mts=(), msg="m\n"):
    return vkm(("tree", tree), ("parents", vl(*parents)), ("message", vs(msg)), ("author", P1), ("committer", P3), ("mergetag", vl(*mts)), ("other", vl()))
def vtagh(h): return vkm(("object", h), ("type", vs("commit")), ("tag", vs("v")), ("tagger", P1), ("message", vs(" m\n")))
def tpl(ty, form, v): return "[ty |-> \"%s\", form |-> \"%s\", val |-> %s]" % (ty, form, v)
HIST = [tpl("Blob", "type", "VBytes(%s)" % b("blob 1\0x")), tpl("Blob", "repr", "VBytes(%s)" % b("blob 0\0")), tpl("Tree", "type", vkm()),
        tpl("Tree", "repr", vkm(("a", ent(hole(0))))), tpl("Tree", "type", vkm(("b", ent(hole(1))), ("a", ent(hole(0))))),
        tpl("Commit", "type", vcommit(hole(0), [])), tpl("Commit", "typerepr", vcommit(hole(0), [hole(1)])), tpl("Commit", "type", vcommit(hole(0), [], [vtagh(hole(1))])),
        tpl("Tag", "type", vtagh(hole(0)))]
for n, k in (("History", 3), ("HistoryT", 4)):
    plain("History", n, dict(Templates=st(HIST), Puts=str(k)), "INVARIANTS Faithful Addressed Leads")

# --- Session
def cmd(op, i=0, n=0, ty="", form="", key="", val="VAbsent"):
    return "[op |-> \"%s\", i |-> %d, n |-> %d, ty |-> \"%s\", form |-> \"%s\", key |-> %s, val |-> %s]" % (op, i, n, ty, form, b(key), val)
NEWC = vcommit(lk(HX), [lk(H1)], [], "other\n")
NEWT = vkm(("z", ent(lk(HX))))
NEWG = vtagh(lk(H0))
SESSBASE = [cmd("dec", 0, form="buffer"), cmd("dec", 0, form="bufio"), cmd("dec", 0, form="any"), cmd("dec", 1, form="buffer"), cmd("dec", 1, form="reader"), cmd("dec", 2, form="zip"),
    cmd("scribble", 0), cmd("scribble", 1), cmd("enc", 0), cmd("enc", 1), cmd("part", 0, key="author"), cmd("part", 0, key="mergetag"), cmd("part", 0, key="b"),
    cmd("build", 0, ty="Commit"), cmd("build", 0, ty="Tree"), cmd("build", 0, ty="Tag"), cmd("rebuild", 0), cmd("rebuild", 1), cmd("make", ty="Commit", val=NEWC), cmd("make", ty="Tree", val=NEWT), cmd("make", ty="Tag", val=NEWG),
    cmd("redec", 0), cmd("redec", 1), cmd("graft", 0, ty="Commit", key="message", val=vs("grafted")), cmd("graft", 0, ty="Tag", key="tagger", val=P2), cmd("graft", 0, ty="Commit", key="mergetag", val=vl())]
SBUFS = "<<%s>>" % ", ".join(b(x) for x in (COM2, TREE2, TAG1))
plain("Session", "Session", dict(Bufs=SBUFS, Alphabet=st(SESSBASE), Depth="4"), "INVARIANT Typing\nPROPERTY Immutable")
plain("Session", "SessionT", dict(Bufs=SBUFS, Alphabet=st(SESSBASE + [cmd("refill", 0), cmd("read", 0)]), Depth="5"), "INVARIANT Typing\nPROPERTY Immutable")

# --- Building: builders driven call by call
SAMPLE = lambda ty: 'Sample("%s")' % ty
ODD = ["VNull", 'Scalar("int", <<55>>)', 'Scalar("bool", <<116>>)', 'Scalar("float", <<49>>)', SAMPLE("String"), SAMPLE("Blob"), SAMPLE("Link"), "VMap(<<>>, <<>>)", "VList(<<>>)",
    "VList(<<VNull>>)", "VList(<<%s, VList(<<>>)>>)" % SAMPLE("Tag"), vkm(("date", "VNull")), vkm(("date", vs("s")), ("date", vs("s"))),
    vkm(("object", SAMPLE("Link")), ("nope", vs("s"))), vkm(("z", SAMPLE("TreeEntry")), ("z", SAMPLE("TreeEntry"))), vkm(("mode", vs("s")), ("hash", vs("s")))]
def keys(**kw):
    d = dict(Tree=["a", "b"], TreeEntry=["mode", "hash", "nope"], PersonInfo=["date", "name", "nope"], Tag=["object", "tagger", ""], Commit=["tree", "author", "mergetag", "nope"])
    d.update(kw)
    return "[ty \\in MapTypes |-> CASE " + " [] ".join('ty = "%s" -> %s' % (t, st([b(k) for k in ks])) for t, ks in d.items()) + "]"
ALLTY = ["String", "Link", "String_List", "PersonInfo", "GpgSig", "Tag", "Tag_List", "Commit", "Commit_Link", "Commit_Link_List", "Blob", "Tree", "TreeEntry", "Tree_Link"]
INV = "VIEW View\nCONSTRAINT Bound\nINVARIANTS Sound Usable\nPROPERTY Refusals"
plain("Building", "Building", dict(Roots=st(['"%s"' % t for t in ALLTY]), Keys=keys(), MaxEntries="2", Shallow="FALSE", Strange=st(ODD)), INV)
plain("Building", "BuildingT", dict(Roots=st(['"%s"' % t for t in ALLTY]), Keys=keys(Commit=["tree", "parents", "author", "signature", "mergetag", "other", "nope"], PersonInfo=["date", "timezone", "email", "name", ""], Tag=["object", "type", "tagger", "nope"]), MaxEntries="2", Shallow="FALSE", Strange=st(ODD)), INV)
ALLK = keys(**{t: ks + ["nope"] for t, ks in FIELDS.items()}, Tree=["a", "b", "", "mode"])
plain("Building", "BuildingK", dict(Roots='{"PersonInfo", "Tag", "Commit", "Tree", "TreeEntry"}', Keys=ALLK, MaxEntries="2", Shallow="TRUE", Strange="{}"), INV)
plain("Building", "BuildingKT", dict(Roots='{"PersonInfo", "Tag", "Commit", "Tree", "TreeEntry"}', Keys=ALLK, MaxEntries="3", Shallow="TRUE", Strange="{}"), INV)
