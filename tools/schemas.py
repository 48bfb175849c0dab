"""Message types, written once and given to both the specification and the drivers."""
import random
from common import tla
INT32, INT64, UINT32, UINT64, SINT32, SINT64, FIXED32, FIXED64, SFIXED32, SFIXED64, BOOL, ENUM, FLOAT, DOUBLE, STRING, BYTES, MESSAGE = range(1, 18)
REQUIRED, OPTIONAL, REPEATED, ONEOF = 1, 2, 3, 4
SIZE = {BOOL: 1, INT64: 8, UINT64: 8, SINT64: 8, FIXED64: 8, SFIXED64: 8, DOUBLE: 8}


def F(tag, type, label=OPTIONAL, nested=0, packed=0, oneof=0, ext=0, default=None):
    return dict(tag=tag, type=type, label=label, nested=nested, packed=packed, oneof=oneof, ext=ext, default=default)


def to_tla(types):
    def fld(f):
        d = [] if f["default"] is None else [rle(f["default"])]
        return tla(dict(tag=f["tag"], type=f["type"], label=f["label"], nested=f["nested"], packed=f["packed"],
                        oneof=f["oneof"], ext=f["ext"], **({"def": d})))
    return "<<" + ",\n  ".join("<<" + ",\n    ".join(fld(f) for f in sorted(t, key=lambda f: f["tag"])) + ">>" for t in types) + ">>"


def rle(b):
    return [[x, 1] for x in b]


def to_text(types):
    out = []
    for t in types:
        t = sorted(t, key=lambda f: f["tag"])
        out.append("type %d" % len(t))
        for f in t:
            d = "none" if f["default"] is None else (f["default"].hex() or "-")
            out.append("f %d %d %d %d %d %d %d f%d %s" % (f["tag"], f["type"], f["label"], f["nested"], f["packed"], f["oneof"], f["ext"], f["tag"], d))
    return "\n".join(out) + "\n"


# A hand-written family: every label, nesting, packed and unpacked, oneof
BASE = [
    # 1: everything
    [F(1, INT32), F(2, STRING), F(3, MESSAGE, nested=1), F(4, INT32, REPEATED), F(5, INT32, REPEATED, packed=1),
     F(6, MESSAGE, REPEATED, nested=1), F(7, UINT32, ONEOF, oneof=1), F(8, STRING, ONEOF, oneof=1), F(9, FIXED32),
     F(20, SINT64, default=b"\x05" + 7 * b"\x00")],
    # 2: narrow, deep: one nested chain with a string and packed
    [F(1, MESSAGE, nested=2), F(2, STRING), F(3, UINT64, REPEATED, packed=1), F(4, MESSAGE, REPEATED, nested=2)],
    # 3: oneofs of all sorts between plain fields
    [F(1, INT32, ONEOF, oneof=1), F(2, BOOL), F(3, MESSAGE, ONEOF, nested=3, oneof=1), F(4, STRING, ONEOF, oneof=2),
     F(6, FIXED64, ONEOF, oneof=1), F(17, DOUBLE, ONEOF, oneof=2), F(18, STRING, REPEATED)],
    # 4: repeated of all wire types, large tags
    [F(1, DOUBLE, REPEATED, packed=1), F(2, SFIXED32, REPEATED), F(15, BOOL, REPEATED, packed=1), F(16, BYTES, REPEATED),
     F(2047, ENUM, REPEATED, packed=1), F(2048, SINT32, REPEATED), F(70000, MESSAGE, nested=4), F(500000, FLOAT)],
]


# Bytes fields that hold encoded messages (a type number on a bytes field)
BLOBS = [
    [F(1, INT32), F(2, BYTES, nested=1), F(3, BYTES, REPEATED, nested=2), F(4, MESSAGE, nested=2), F(7, STRING)],
    [F(1, BYTES, nested=2), F(2, UINT32, REPEATED, packed=1), F(3, STRING, REPEATED), F(4, BYTES, ONEOF, oneof=1, nested=1),
     F(5, FIXED64, ONEOF, oneof=1), F(6, MESSAGE, ONEOF, oneof=1, nested=1)],
]


def blobs(types, seed):
    """let half of the plain bytes fields (random: types grow more of them) hold messages"""
    r = random.Random(seed)
    out = []
    for t in types:
        u = []
        for f in t:
            f = dict(f)
            if f["type"] in (BYTES, STRING) and f["default"] is None and not f["nested"] and r.random() < .5:
                f.update(type=BYTES, nested=r.randint(1, len(types)))
            u.append(f)
        out.append(u)
    return out


def random_types(seed, n=3):
    """n mutually referring random types"""
    r = random.Random(seed)
    tags = [1, 2, 3, 4, 5, 6, 7, 14, 15, 16, 17, 31, 100, 127, 128, 1000, 2047, 2048, 5000, 262143, 262144, 536870911]
    out = []
    for _ in range(n):
        fs = []
        for tag in sorted(r.sample(tags, r.randint(3, 8))):
            ty = r.choice(list(range(1, 18)) + [STRING, MESSAGE, MESSAGE])
            label = r.choice([OPTIONAL, OPTIONAL, REPEATED, REPEATED, ONEOF, ONEOF])
            packed = 1 if label == REPEATED and ty < STRING and r.random() < .6 else 0
            nested = r.randint(1, n) if ty == MESSAGE else 0
            oneof = r.choice([1, 1, 2]) if label == ONEOF else 0
            default = None
            if label == OPTIONAL and ty != MESSAGE and r.random() < .35:
                if ty in (STRING, BYTES):
                    default = b"dflt"
                elif ty == BOOL:
                    default = b"\x01"
                elif ty == ENUM:
                    default = b"\x02\0\0\0"
                else:
                    default = bytes(r.randrange(256) for _ in range(SIZE.get(ty, 4)))
            fs.append(F(tag, ty, label, nested, packed, oneof, 0, default))
        # oneof numbers without gaps
        used = sorted({f["oneof"] for f in fs if f["oneof"]})
        for f in fs:
            if f["oneof"]:
                f["oneof"] = used.index(f["oneof"]) + 1
        out.append(fs)
    return out


def shift(types, by):
    return [[dict(f, nested=f["nested"] + by if f["nested"] else 0) for f in t] for t in types]


# Small types for exhaustive suffixes
SMALL = [
    [F(1, INT32), F(2, MESSAGE, nested=1), F(3, UINT32, REPEATED, packed=1)],
    [F(1, STRING, ONEOF, oneof=1), F(2, MESSAGE, ONEOF, nested=2, oneof=1), F(3, FIXED32)],
    [F(1, STRING, REPEATED), F(2, MESSAGE, REPEATED, nested=3)],
    [F(1, SINT32, REPEATED), F(2, BOOL, REPEATED, packed=1), F(5, MESSAGE, nested=4)],
    [F(16, INT64, REPEATED, packed=1), F(17, MESSAGE, ONEOF, nested=5, oneof=1), F(18, BYTES, ONEOF, oneof=1)],
    [F(1, BYTES, nested=6), F(2, UINT32), F(4, BYTES, ONEOF, oneof=1, nested=6), F(5, BOOL, ONEOF, oneof=1)],
]
