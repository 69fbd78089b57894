"""What is checked for each property."""


def enc_case(v):
    return [{"k": "enc", "e": v}]


def blk_case(v):
    return [{"k": "blk", "inp": v["data"], "blk": {"cid": v["cid"]}}]


def wr_case(v):
    return [{"k": "wr", "wr": dict(v, form=f)} for f in ("type", "repr")]


def stream_case(v):
    n = len(v["inp"])
    return [dict(v, ch=ch) for ch in ([], [1] * (n + 1), [n // 2, 0, 1], [max(0, n - 1), 0])]


TEXT = {"blob": b"x", "tree": b"1 a\0" + b"a" * 20, "commit": b"parent " + b"4a" * 20 + b"\n", "tag": b"line\n"}
HEAD = {"blob": b"", "tree": b"1 \0" + b"b" * 20, "commit": b"tree " + b"4a" * 20 + b"\n",
        "tag": b"object " + b"4a" * 20 + b"\ntype commit\ntag v\n\n"}


def mem_case(v):
    k = v["kind"]
    return [{"k": "mem", "mem": {"head": list(("%s %s\0" % (k, v["claim"])).encode() + HEAD[k]), "pat": list(TEXT[k]),
                                 "n": v["n"] // len(TEXT[k]), "tail": [], "ep": ep}} for ep in ("Parse", "Decode", "DecodeT", "Buffer", "Zip")]


def view_case(v):
    if v["form"] not in ("type", "repr") or v["via"]:
        return []
    return [{"k": "view", "w": {"ty": v["ty"], "form": v["form"], "keys": v["keys"], "val": v["val"], "ask": []}}]


def c01(r):
    r.replay_decoder(["Blob"])
    r.trace("blob", r.quick(12000, 150000))
    r.trace("bigblob", r.quick(80, 1500), "TraceBig")


def c02(r):
    r.replay_decoder(r.quick(["Tree", "Tree3"], ["Tree", "Tree3", "TreeT"]))
    r.trace("tree", r.quick(12000, 150000))
    r.trace("bigtree", r.quick(80, 1500), "TraceBig")


def c03(r):
    r.replay_decoder(r.quick(["Commit"], ["CommitT"]))
    r.trace("commit", r.quick(8000, 150000))
    r.trace("bigcommit", r.quick(160, 2500), "TraceBig")


def c04(r):
    r.replay_decoder(r.quick(["Embed"], ["Embed", "EmbedT"]))
    r.trace("embed", r.quick(8000, 150000))
    r.trace("bigembed", r.quick(160, 2500), "TraceBig")


def c05(r):
    r.replay_decoder(r.quick(["Tag"], ["Tag", "TagT"]))
    r.trace("tag", r.quick(12000, 150000))
    r.trace("bigtag", r.quick(80, 1500), "TraceBig")


def c06(r):
    r.replay_decoder(["Person", "Person2"])
    r.trace("person", r.quick(15000, 200000))


def c07(r):
    r.replay_decoder(["Links", r.quick("Refs", "RefsT")])
    r.replay(["Foreign"], enc_case, "TraceEncode")
    r.trace("link", r.quick(4000, 60000))
    r.trace("elink", r.quick(4000, 60000), "TraceEncode")


def c08(r):
    r.replay_decoder(["CutD", "CutR", "ByteD", "ByteR", "LineR", r.quick("Claim", "ClaimT"), r.quick("Refs", "RefsT")])
    r.trace("damage", r.quick(15000, 200000))
    r.trace("bigcut", r.quick(200, 4000), "TraceBig")


def c09(r):
    r.replay_decoder(["ByteD", "LineR"])
    r.replay(["Faulty"], enc_case, "TraceEncode")
    r.trace("damage", r.quick(8000, 200000))
    r.trace("odd", r.quick(4000, 60000), "TraceEncode")
    r.trace("big", r.quick(100, 3000), "TraceBig", seed=r.seed + 600)


def ent_case(v):
    b = v["inp"]
    return [{"k": "ent", "inp": b[b.index(0) + 1:]}] if 0 in b else []


def c10(r):
    r.replay_decoder(["Links", "Tree3"])
    r.replay(["Tree3"], ent_case, "TraceEntry")
    r.trace("ent", r.quick(1000, 40000), "TraceEntry")
    r.trace("zip", r.quick(4000, 60000), "TraceEntry")
    r.trace("wrong", r.quick(3000, 40000), "TraceEntry")
    r.trace("big", r.quick(100, 3000), "TraceBig", seed=r.seed + 500)
    r.trace("damage", r.quick(4000, 60000))
    r.trace("link", r.quick(4000, 60000))


def c11(r):
    r.replay([r.quick("Stream", "StreamT")], stream_case, "TraceDecode")
    r.replay(["Sink"], wr_case, "TraceWrite")
    r.trace("stream", r.quick(8000, 120000))
    r.trace("wr", r.quick(5000, 80000), "TraceWrite")
    r.trace("big", r.quick(200, 4000), "TraceBig")


def c12(r):
    r.replay(["Growth"], mem_case, "TraceMemory")
    r.trace("mem", r.quick(3000, 60000), "TraceMemory")


def c13(r):
    r.replay(["Guise"], view_case, "TraceView")
    r.trace("view", r.quick(1000, 20000), "TraceView")


def c14(r):
    r.replay_asm(r.quick(["Building", "BuildingK"], ["BuildingT", "BuildingKT"]))
    r.trace("asm", r.quick(3000, 60000), "TraceAssembler")


def c15(r):
    r.replay(["Guise", "Faulty", "Disguise"], enc_case, "TraceEncode")
    r.trace("guise", r.quick(3000, 60000), "TraceEncode")


def c16(r):
    r.replay([r.quick("History", "HistoryT")], lambda v: [{"k": "store", "store": v}], "TraceStore")
    r.trace("store", r.quick(400, 15000), "TraceStore")


def sess_case(v):
    return [{"k": "sess", "sess": dict(v, par=[])}]


def c17(r):
    r.trace("again", r.quick(1200, 30000), "TraceAssembler")
    r.replay([r.quick("Session", "SessionT")], sess_case, "TraceSession")
    r.trace("sess", r.quick(1500, 40000), "TraceSession")
    r.trace("sess", r.quick(700, 15000), "TraceSession", race=True, seed=r.seed + 1000)


def c18(r):
    r.replay(["Blocks"], blk_case, "TraceEntry")
    r.trace("blk", r.quick(6000, 80000), "TraceEntry")


def c19(r):
    r.replay(["Guise"], enc_case, "TraceEncode")
    r.trace("enc", r.quick(6000, 100000), "TraceEncode")
    r.trace("big", r.quick(200, 3000), "TraceBig")


PROPS = {k.upper(): f for k, f in list(globals().items()) if len(k) == 3 and k[0] == "c" and k[1:].isdigit()}
