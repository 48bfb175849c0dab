"""Message layer properties M01..M15: which behaviours of the specification are replayed for each."""
from msgcheck import *
import schemas

M, FO, CO, OO = OPS_M_DEFAULT, OPS_F_DEFAULT, OPS_C_DEFAULT, OPS_O_DEFAULT
READS_M = ["mhas", "mget", "mmatch", "nhas", "nget", "nmatch", "ccreate", "oneof"]
READS_C = ["cnext", "cnext", "cnext", "crewind", "cseek", "cmatch", "cget", "mfromcur", "ffromcur"]
EDGE = [0, 1, 2, 60, 100, 110, 115, 118, 120, 122, 124, 125, 126, 127, 128, 129]
MAKE = ["within", "mnested", "fcreate", "ccreate", "ccreate", "oneof"]


def all_types(c, salt, nrandom=2):
    t = list(schemas.BASE)
    for k in range(nrandom):
        t += schemas.shift(schemas.random_types(c.base((salt, k)), 3), len(t))
    t += schemas.shift(schemas.BLOBS, len(t))
    t += schemas.shift(schemas.blobs(schemas.random_types(c.base((salt, "blobs")), 3), c.base((salt, "blob"))), len(t))
    return t


def generate(c, name, n, types, roots, **kw):
    """seeded behaviours from TLC (checking the model's invariants): (schema file, its text, behaviours in seed order)"""
    p = profile(**kw)
    d = c.sub(name)
    schema = os.path.join(d, "schema.txt")
    text = schemas.to_text(types)
    open(schema, "w").write(text)
    lo = c.base(name) % (46000 - n)
    defs = dict(Schema=schemas.to_tla(types), Roots=tla(roots), Seeds="%d..%d" % (lo, lo + n - 1))
    defs.update({k: tla(v) for k, v in p.items()})
    write_mc(d, "MC", "MsgGen", defs, ["INIT Init", "NEXT Next", "INVARIANT Holds", "CHECK_DEADLOCK FALSE"])
    raw = []
    r = tlc(d, "MC", on_line=lambda s: raw.append(json.loads(s)), timeout=3000)
    need_ok(r, name)
    if not raw:
        raise CheckError("no behaviours generated for " + name)
    raw.sort(key=lambda b: (b["seed"], json.dumps(b["t"])))
    c.tlc_stats(name, r)
    return schema, text, raw


def run_part(c, name, n, types=None, roots=None, **kw):
    """generate behaviours and replay them into the library"""
    if types is None:
        types = all_types(c, name)
    if roots is None:
        roots = [1, 1, 2, 3, 4] + list(range(5, len(types) + 1))
    schema, text, raw = generate(c, name, n, types, roots, **kw)
    items = [behaviour(b) + (b["seed"],) for b in raw]
    bad = []
    for exe in c.both("msgdrv", ["msgdrv.c", "schema.c"]):
        c.steps += replay_sessions(exe, schema, items, lambda tag, lines, k, text: bad.append((tag, lines, k, text, exe)))
    c.traces += len(items)
    c.sample({"part": name, "behaviour": items[len(items) // 2][0][:12]})
    bad.sort(key=lambda x: (x[2], len(x[1])))
    for tag, lines, k, what, exe in bad[:3]:
        # confirm on its own
        item = [x for x in items if x[0] == lines][0]
        again = []
        replay_sessions(exe, schema, [item], lambda *a: again.append(a))
        note = "" if again else " (only within the whole run)"
        c.violation("%s: step %d '%s': %s%s" % (name, k, lines[k][:200], what[:1500], note),
                    dict(kind="msg", schema=text, script=lines[:k + 1], diverges=what))
    return len(bad)


def M01(c):
    run_part(c, "writes", c.n(1200, 12000), OpsM=["mput"] * 4 + ["nput"] * 4 + ["mget", "nget", "mhas"] + ["fcreate", "fnested", "ccreate"],
             Kinds=["m", "m", "f", "c"], OpsC=["cnext", "cput"], OpsF=["fput", "fput", "fget"])
    run_part(c, "boundary", c.n(700, 8000), OpsM=["mput"] * 4 + ["nput"] * 4 + ["fcreate", "fnested"], Kinds=["m", "m", "f"],
             OpsF=["fput"], StrLens=EDGE, Items=4)
    run_part(c, "deep", c.n(400, 6000), OpsM=["nput"] * 5 + ["mnested", "mput"], Nest=4, Depth=24, Kinds=["m"], MaxH=5)
    t = blob_types(c)
    run_part(c, "blobs", c.n(300, 4000), types=t, roots=[1, 1, 2, 2, 3, 4, 5], OpsM=["mput"] * 3 + ["nput"] + ["fcreate"] * 3 + ["ccreate"],
             OpsF=BLOBF, OpsC=["cnext", "cput", "ffromcur"], Kinds=["m", "m", "f", "f", "c"], Items=5, Depth=18, StrLens=EDGE)


def M02(c):
    run_part(c, "edits", c.n(1000, 12000))
    run_part(c, "boundary", c.n(1000, 12000), StrLens=EDGE, Items=4, Nest=3, OpsM=["nput"] * 6 + ["nerase"] * 2 + M, types=list(schemas.BASE))
    run_part(c, "small", c.n(8, 60), types=schemas.SMALL, roots=[1, 2, 3, 4, 5], Depth=5, All=2, Items=3, Nest=1, MaxH=4, Unknown=0,
             StrLens=[0, 1, 2], Kinds=["m"], OpsM=MAKE)
    run_part(c, "wide", c.n(60, 600), Depth=10, Items=3, StrLens=[1, 126, 127, 16370, 16376, 16379, 16380, 16381, 16382, 16383, 16384],
             types=list(schemas.BASE))


def M03(c):
    run_part(c, "erase", c.n(1500, 15000), OpsM=["merase"] * 4 + ["nerase"] * 3 + ["mhas", "nhas", "mput", "nput", "ccreate", "within"],
             Items=9, Nest=2)
    run_part(c, "oneofs", c.n(500, 6000), types=list(schemas.BASE), roots=[1, 3, 3, 3], OpsM=["merase"] * 3 + ["nerase", "mput", "mhas", "oneof"], Items=9)
    run_part(c, "boundary", c.n(400, 6000), OpsM=["merase", "merase", "nerase", "nput", "nput", "mput"], StrLens=EDGE, Kinds=["m"], Items=6, Nest=3)


def M04(c):
    run_part(c, "reads", c.n(1500, 15000), OpsM=["mget"] * 4 + ["mhas"] * 2 + ["mmatch"] * 3 + ["nget", "nhas", "nmatch", "mput", "merase"],
             Items=8, Kinds=["m"], Depth=16)
    run_part(c, "defaults", c.n(700, 8000), types=sum([schemas.shift(schemas.random_types(c.base(("d", k)), 2), 2 * k) for k in range(5)], []),
             roots=list(range(1, 11)), OpsM=["mget"] * 5 + ["mhas", "mmatch", "mmatch", "mput", "merase", "fcreate"], Items=5,
             OpsF=["fget", "fmatch"], Depth=14)
    run_part(c, "zerocopy", c.n(300, 3000), OpsM=["mget"] * 4 + ["mhas"] * 2 + ["mmatch"] * 3, Items=8, Kinds=["m"], Modes=["z"])


def blob_types(c):
    """types whose bytes fields hold messages"""
    return list(schemas.BLOBS) + schemas.shift(schemas.blobs(schemas.random_types(c.base("blobs"), 3), c.base("blob")), len(schemas.BLOBS))


BLOBF = ["mfromfld", "mfromfld", "fput", "fput", "fget", "fmatch"]


def oneof_types(c):
    t = [schemas.BASE[2]]
    t[0] = [dict(f, nested=1 if f["nested"] else 0) for f in t[0]]
    for k in range(4):
        r = schemas.random_types(c.base(("o", k)), 3)
        for ty in r:
            for f in ty:
                if f["label"] == schemas.OPTIONAL and f["default"] is None:
                    f["label"], f["oneof"] = schemas.ONEOF, 1
            used = sorted({f["oneof"] for f in ty if f["oneof"]})
            for f in ty:
                if f["oneof"]:
                    f["oneof"] = used.index(f["oneof"]) + 1
        t += schemas.shift(r, len(t))
    return t


def M05(c):
    t = oneof_types(c)
    run_part(c, "oneofs", c.n(1600, 15000), types=t, roots=[1] * 5 + list(range(2, len(t) + 1)),
             OpsM=["mput"] * 3 + ["mget", "mhas", "mmatch", "oneof", "within", "fcreate", "merase", "nput", "nget", "ccreate"],
             Kinds=["m", "m", "o"], Items=8)
    run_part(c, "small", c.n(10, 80), types=schemas.SMALL, roots=[2, 5], Depth=4, All=2, Items=4, Nest=1, MaxH=4,
             StrLens=[0, 1, 2], Kinds=["m"], OpsM=["oneof", "within", "fcreate", "ccreate"])


def repeated_types(c):
    t = [schemas.BASE[0], schemas.BASE[1], schemas.BASE[3]]
    t = [[dict(f, nested={1: 1, 2: 2, 4: 3}[f["nested"]] if f["nested"] else 0) for f in x] for x in t]
    for k in range(3):
        r = schemas.random_types(c.base(("r", k)), 3)
        for ty in r:
            for f in ty:
                if f["label"] != schemas.REPEATED and f["type"] < schemas.MESSAGE:
                    f["label"], f["oneof"], f["default"] = schemas.REPEATED, 0, None
                    f["packed"] = 1 if f["type"] < schemas.STRING and f["tag"] % 2 else 0
            used = sorted({f["oneof"] for f in ty if f["oneof"]})
            for f in ty:
                if f["oneof"]:
                    f["oneof"] = used.index(f["oneof"]) + 1
        t += schemas.shift(r, len(t))
    return t


def M06(c):
    t = repeated_types(c)
    run_part(c, "traversal", c.n(1300, 12000), types=t, roots=[1, 2, 3, 3] + list(range(4, len(t) + 1)), Items=14, Nest=1, Depth=20, Unknown=25,
             Kinds=["m"] + ["c"] * 6, OpsM=["ccreate"] * 5 + ["cnested"] * 2 + ["mput"], OpsC=["cnext"] * 8 + ["crewind", "cseek", "cget", "cmatch"])
    run_part(c, "seek", c.n(600, 6000), types=t, roots=[1, 2, 3, 3] + list(range(4, len(t) + 1)), Items=14, Depth=14, Nest=1,
             Kinds=["m"] + ["c"] * 5, OpsM=["ccreate"], OpsC=["cnext"] + ["cseek"] * 5 + ["crewind", "cmatch"])
    run_part(c, "zerocopy", c.n(250, 3000), types=t, roots=[1, 2, 3, 3], Items=14, Nest=1, Depth=16, Modes=["z"],
             Kinds=["m"] + ["c"] * 6, OpsM=["ccreate"], OpsC=READS_C)


def M07(c):
    t = repeated_types(c)
    roots = [1, 2, 3, 3] + list(range(4, len(t) + 1))
    run_part(c, "edits", c.n(1300, 12000), types=t, roots=roots, Items=14, Nest=1, Depth=22, Unknown=20,
             Kinds=["m"] + ["c"] * 8, OpsM=["ccreate"] * 4 + ["cnested", "mput"], OpsC=["cnext"] * 4 + ["cput"] * 3 + ["cerase"] * 3 + ["cget"], MaxH=5)
    run_part(c, "boundary", c.n(400, 5000), types=t, roots=roots, Items=8, Depth=18, StrLens=EDGE, Nest=3,
             Kinds=["m"] + ["c"] * 8, OpsM=["cnested"] * 3 + ["ccreate"], OpsC=["cnext"] * 4 + ["cput"] * 3 + ["cerase"] * 2, MaxH=5)
    run_part(c, "small", c.n(8, 60), types=schemas.SMALL, roots=[1, 3, 4, 5], Depth=3, All=2, Items=5, Nest=1, MaxH=4, StrLens=[0, 1, 2],
             Kinds=["m"], OpsM=["ccreate"])


def M08(c):
    run_part(c, "handles", c.n(900, 10000), MaxH=18, Depth=30, Items=7)
    run_part(c, "boundary", c.n(400, 6000), MaxH=14, Depth=22, StrLens=EDGE, Items=5, Nest=3)
    run_part(c, "small", c.n(8, 80), types=schemas.SMALL, roots=[1, 2, 3, 4, 5, 6, 6], Depth=6, All=2, Items=4, Nest=1, MaxH=5,
             StrLens=[0, 1, 2], Kinds=["m", "m", "c", "f"], OpsM=MAKE, OpsC=["cnext", "mfromcur", "ffromcur"], OpsF=["mfromfld", "fget"])
    t = blob_types(c)
    run_part(c, "blobs", c.n(300, 4000), types=t, roots=[1, 1, 2, 2, 3, 4, 5], OpsM=M + ["fcreate"] * 6 + ["merase"], OpsF=BLOBF + ["fclear"],
             Kinds=["m", "m", "f", "f", "c"], MaxH=16, Depth=26, Items=6)


def M09(c):
    run_part(c, "removal", c.n(1100, 12000), MaxH=16, Depth=24, Items=7,
             OpsM=M + ["merase", "mclear", "merase", "nerase", "within", "fcreate"], OpsF=FO + ["fclear"], OpsC=CO + ["cerase"] * 3)
    run_part(c, "packed", c.n(500, 6000), types=repeated_types(c), roots=[1, 2, 3, 3, 4, 5, 6], MaxH=14, Depth=20, Items=9,
             Kinds=["m", "c", "c", "f"], OpsM=["ccreate"] * 3 + ["fcreate", "mput", "merase"], OpsC=["cnext"] * 3 + ["ffromcur", "mfromcur", "cerase", "cerase", "cput"],
             OpsF=["fput", "fget", "fclear"])
    run_part(c, "small", c.n(6, 60), types=schemas.SMALL, roots=[1, 2, 3, 4, 5, 6, 6], Depth=6, All=2, Items=4, Nest=1, MaxH=5,
             StrLens=[0, 1, 2], Kinds=["m", "m", "c", "f"], OpsM=MAKE, OpsC=["cnext", "mfromcur", "ffromcur"], OpsF=["mfromfld", "fget"])


def M10(c):
    run_part(c, "nested", c.n(1500, 15000), OpsM=["nhas", "nget", "nmatch", "nput", "nput", "nerase", "mnested", "fnested", "cnested", "mget", "mput"],
             Kinds=["m"], Nest=3, Items=5, Depth=16, roots=[1, 2, 2, 2, 3, 3] + list(range(5, 11)))
    run_part(c, "absent", c.n(600, 6000), OpsM=["nhas", "nget", "nmatch", "nerase"] * 2 + ["mnested", "nput"], Kinds=["m"], Items=2, Depth=14,
             roots=[1, 2, 3, 3] + list(range(5, 11)), Modes=["c", "e", "z"])


def M11(c):
    run_part(c, "reads", c.n(1400, 15000), OpsM=READS_M, OpsC=READS_C, OpsF=["fget", "fmatch"], OpsO=["ocase"], Items=8, Nest=2, Depth=18,
             Kinds=["m", "m", "c", "c", "f", "o"], Unknown=25, Modes=["c", "z"])
    run_part(c, "mixed", c.n(600, 6000), OpsM=READS_M * 2 + M, OpsC=READS_C * 2 + CO, Items=8, Depth=20)


def M12(c):
    run_part(c, "zerocopy", c.n(1500, 15000), Modes=["z"], Items=7)
    run_part(c, "inplace", c.n(900, 8000), Modes=["z"], Items=7, OpsM=["mput", "mput", "nput", "ccreate", "fcreate", "within"],
             OpsC=["cnext", "cput", "cput", "cerase", "ffromcur"], OpsF=["fput", "fput", "fget"], StrLens=[1, 2, 2, 2, 3])
    run_part(c, "messages", c.n(400, 4000), Modes=["z", "z", "c"], NJ=2, Items=6, MaxH=12, Depth=16,
             OpsM=M + ["mputm"] * 4 + ["nputm"] * 3, OpsC=CO + ["cputm"] * 3)


def M13(c):
    run_part(c, "order", c.n(1500, 15000), Sorted=True, Unknown=35, Items=7,
             OpsM=["mput"] * 3 + ["nput"] * 3 + ["within", "fcreate", "mnested", "fnested", "merase", "nerase"], Kinds=["m", "m", "f", "c"])
    run_part(c, "unknown", c.n(800, 8000), Unknown=70, Items=7)


def M14(c):
    ops = dict(OpsM=["mputm"] * 5 + ["nputm"] * 4 + ["within", "mnested", "mput", "nput", "merase", "ccreate", "cnested"],
               OpsC=["cnext", "cnext", "cputm", "cputm", "cputm", "mfromcur"], NJ=2, MaxH=14)
    run_part(c, "copies", c.n(1000, 12000), Items=4, Depth=15, Nest=2, **ops)
    run_part(c, "boundary", c.n(400, 6000), Items=3, Depth=12, StrLens=EDGE, **ops)


def M15(c):
    run_part(c, "creation", c.n(1500, 15000), OpsM=["within", "fcreate", "fcreate", "mnested", "fnested", "mput", "merase", "ccreate"],
             Kinds=["m", "m", "f"], OpsF=["fget", "fget", "fput", "fclear"], Items=6, MaxH=14, Depth=16)
    run_part(c, "empty", c.n(500, 5000), OpsM=["within", "fcreate", "fcreate", "mnested", "fnested"], Modes=["e"],
             Kinds=["m", "m", "f"], OpsF=["fget", "fput"], MaxH=14, Depth=14)
    run_part(c, "boundary", c.n(300, 4000), OpsM=["within", "fcreate", "mnested", "fnested", "mput"], Kinds=["m", "m", "f"], OpsF=["fput"],
             StrLens=EDGE, Items=4, MaxH=14)


PROPS = {k: v for k, v in globals().items() if len(k) == 3 and k[0] == "M" and k[1:].isdigit()}
