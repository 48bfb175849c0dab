"""Wire layer properties W01..W06: inputs and verdicts of spec/{ScalarGen,EncGen,WireGen,ByteGen} against decoder, encoder, validator."""
import json, os, random, subprocess
from common import *
import schemas
from schemas import F, OPTIONAL, REPEATED, REQUIRED, ONEOF

INVARIANT = ["INIT Init", "NEXT Next", "INVARIANT Holds", "CHECK_DEADLOCK FALSE"]
BASEP = dict(Items=5, Nest=2, Sorted=False, Unknown=0, StrLens=[0, 1, 2, 3, 7])


def req_types(seed, n=3):
    """random types with required fields and extensions"""
    r = random.Random(seed)
    out = schemas.random_types(seed, n)
    for t in out:
        tags = [f["tag"] for f in t]
        for f in t:
            if f["label"] == OPTIONAL and r.random() < .5:
                f["label"], f["default"] = REQUIRED, None
        k = 0
        for e in range(1, 3):
            for tag in (201, 5001):
                tg = tag + 10 * e + r.randrange(5)
                if r.random() < .6 and tg not in tags:
                    ty = r.choice([1, 2, 5, 9, 11, 14, 15, 17])
                    lab = r.choice([OPTIONAL, REPEATED])
                    t.append(F(tg, ty, lab, r.randint(1, n) if ty == 17 else 0, 1 if lab == REPEATED and ty < 15 and r.random() < .5 else 0, 0, e))
        # extension descriptors without gaps
        used = sorted({f["ext"] for f in t if f["ext"]})
        for f in t:
            if f["ext"]:
                f["ext"] = used.index(f["ext"]) + 1
    return out


WREQ = [
    # 1: required of several kinds, recursion
    [F(1, 1, REQUIRED), F(2, 17, OPTIONAL, nested=2), F(3, 17, REPEATED, nested=1), F(4, 15, REQUIRED), F(5, 3, REPEATED, packed=1), F(6, 9)],
    # 2: a required submessage; required fields with large tags; an extension
    [F(2, 17, REQUIRED, nested=3), F(100, 11, REQUIRED), F(5000, 2), F(5001, 17, OPTIONAL, nested=1, ext=1), F(6000, 5, REPEATED, packed=1, ext=2)],
    # 3: no required field; all wire types
    [F(1, 13, REPEATED, packed=1), F(2, 14), F(3, 16, REPEATED), F(4, 12, ONEOF, oneof=1), F(5, 17, ONEOF, nested=1, oneof=1), F(16, 6, REPEATED, packed=1),
     F(17, 11, REPEATED), F(2048, 4, ext=1)],
]


def wire_types(c, salt, n=2):
    t = schemas.BASE + schemas.shift(WREQ, 4)
    for k in range(n):
        t = t + schemas.shift(req_types(c.base((salt, k)), 3), len(t))
    return t


# required fields only, which occur more often than a type has fields
WREP = [
    [F(1, 13, REQUIRED)],
    [F(2, 15, REQUIRED)],
    [F(3, 17, REQUIRED, nested=1)],
    [F(1, 17, REQUIRED, nested=2), F(500, 6, REQUIRED)],
    [F(7, 5, OPTIONAL), F(8, 14, REQUIRED), F(9, 17, REQUIRED, nested=6)],
    [F(20, 3, REQUIRED), F(21, 16, ext=1)],
]


class Drv:
    """batched commands for harness/wiredrv"""
    def __init__(self, c, types, d, both=True):
        """both: with assertions, too; they rule out enum values that were not declared"""
        self.c, self.exe = c, c.exe("wiredrv", ["wiredrv.c", "schema.c"])
        self.exes = c.both("wiredrv", ["wiredrv.c", "schema.c"]) if both else [self.exe]
        self.text = schemas.to_text(types)
        self.schema = os.path.join(d, "schema.txt")
        open(self.schema, "w").write(self.text)

    def once(self, cmds):
        try:
            p = subprocess.run([self.exe, self.schema], input="\n".join(cmds) + "\n", stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                               text=True, env=ASAN_ENV, timeout=600)
            out, err, rc = p.stdout, p.stderr, p.returncode
        except subprocess.TimeoutExpired as e:
            out, err, rc = (e.stdout or b"").decode() if isinstance(e.stdout, bytes) else (e.stdout or ""), "timeout", -1
        res = []
        for line in out.split("\n"):
            if line:
                try:
                    res.append(json.loads(line))
                except ValueError:
                    break
        return res, rc, err

    def run(self, cmds):
        """results per command; a crash is {'crash': text}"""
        res = []
        crashes = 0
        while len(res) < len(cmds):
            r, rc, err = self.once(cmds[len(res):])
            res += r
            if len(res) < len(cmds):
                if rc == 0:
                    raise CheckError("wiredrv stopped early")
                msg = [l for l in err.split("\n") if "ERROR" in l or "SUMMARY" in l or "timeout" in l or "Assertion" in l]
                res.append({"crash": "crash (exit %s): %s" % (rc, " ".join(msg)[:300] or err[-200:])})
                crashes += 21 if rc in (97, -1) else 1
                if crashes > 20:
                    res += [{"crash": "not run"}] * (len(cmds) - len(res))
        return res

    def judge(self, part, cmds, expect, limit=3):
        """expect: list of functions result -> text or None"""
        bad = []
        for self.exe in self.exes:
            for cmd, f, r in zip(cmds, expect, self.run(cmds)):
                what = None
                if "crash" in r:
                    if r["crash"] != "not run":
                        what = r["crash"]
                else:
                    what = f(r)
                self.c.steps += 1
                if what:
                    bad.append((len(cmd), cmd, what))
        bad.sort()
        for _, cmd, what in bad[:limit]:
            self.c.violation("%s: '%s': %s" % (part, cmd[:300], what[:800]), dict(kind="wire", schema=self.text, script=[cmd], diverges=what))
        self.c.traces += len(cmds)
        return len(bad)


def hx(b):
    return bytes(b).hex()


def evs(ev):
    return [[d, t, hx(v)] for d, t, v in ev]


def gen(c, name, module, types, defs, timeout=3000, cfg=INVARIANT):
    d = c.sub(name)
    D = dict(Schema=schemas.to_tla(types)) if types is not None else {}
    D.update({k: v if isinstance(v, str) and v.startswith("=") else tla(v) for k, v in defs.items()})
    D = {k: v[1:] if v.startswith("=") else v for k, v in D.items()}
    write_mc(d, "MC", module, D, cfg)
    r = tlc(d, "MC", timeout=timeout)
    need_ok(r, name)
    if not r.printed:
        raise CheckError("nothing generated for " + name)
    c.tlc_stats(name, r)
    return d, [json.loads(x) for x in sorted(r.printed)]


def neq(what, a, b):
    return None if a == b else "%s: expected %s, got %s" % (what, json.dumps(a)[:350], json.dumps(b)[:350])


# ---------------------------------------------------------------- W01
def w01(c):
    tags = [1, 15, 16, 2047, 2048, 262143, 262144, 33554431, 33554432, 536870911]
    types, fields = [], []
    for t in range(1, 17):
        ty = []
        for i, tag in enumerate(tags):
            ty.append(F(tag, t, OPTIONAL))
        ty.append(F(2, t, REPEATED, packed=1 if t < 15 else 0))
        ty.append(F(3, t, REPEATED))
        ty.append(F(4, t, ONEOF, oneof=1))
        types.append(ty)
    full = lambda t: [1, 2, 3, 4, 16]
    def fl(t, tag):
        f = [x for x in types[t - 1] if x["tag"] == tag][0]
        return "[ty |-> %d, f |-> %s]" % (t, tla(dict(tag=f["tag"], type=t, label=f["label"])))
    dense = ", ".join(fl(t, tag) for t in range(1, 17) for tag in (c.n([1, 2], [1, 2, 3, 4, 16, 2048])))
    sparse = ", ".join(fl(t, tag) for t in (1, 2, 7, 8, 11, 15, 16) for tag in tags + [3, 4])
    lens = [0, 1, 2, 126, 127, 128, 129, 16382, 16383, 16384] + c.n([], [2097151, 2097152, 2097153])
    for part, flds, dn in (("dense", dense, c.n(2, 12)), ("tags", sparse, 0)):
        d, L = gen(c, part, "ScalarGen", types, dict(BASEP, Fields="={%s}" % flds, Dense=dn, Lens=lens))
        cmds, exp = [], []
        for x in L:
            for k in x["c"]:
                v, rec = rle_hex(k["v"]), rle_hex(k["r"])
                cmds.append("rt %d %d %s" % (x["ty"], x["tag"], hexarg(v)))
                want = dict(rc=0, enc=rec, dec=[[0, x["tag"], v]], drc=0, prc=0, put=None, grc=0, get=v, orc=0, match=1, over=rec)
                # a message writes a packed field as a packed record
                f = [y for y in types[x["ty"] - 1] if y["tag"] == x["tag"]][0]
                if f["packed"]:
                    key = bytes([f["tag"] * 8 + 2]).hex()
                    body = rec[2:]
                    want["put"] = key + "%02x" % (len(body) // 2) + body
                else:
                    want["put"] = rec
                exp.append(lambda r, want=want: neq("round trip", want, r))
        Drv(c, types, d, both=False).judge(part, cmds, exp)
        c.sample({"part": part, "command": cmds[len(cmds) // 2][:200]})
    c.notes["bounds"] = "every power of two, its neighbours and complements, and %d pseudo-random values per bit length, of all 14 scalar types; string lengths %s; field numbers %s" % (c.n(2, 12), lens, tags)


# ---------------------------------------------------------------- W02
def prog_text(p):
    out = [str(len(p))]
    for call in p:
        out += [str(call["tag"]), str(len(call["v"]))]
        for v in call["v"]:
            out += ["{", prog_text(v), "}"] if call["m"] else [hexarg(hx(v))]
    return " ".join(out)


def w02(c):
    for part, n, kw in (("programs", c.n(500, 6000), dict(Calls=4, Nest=2, Counts=[1, 2, 2, 3, 5])),
                        ("arrays", c.n(150, 1500), dict(Calls=2, Nest=1, Counts=[2, 13, 16, 25, 31, 32, 33, 42, 43, 63, 64, 127, 128, 129], StrLens=[0, 1, 126, 127, 128])),
                        ("deep", c.n(60, 800), dict(Calls=2, Nest=6, Counts=[1, 2], StrLens=[0, 5, 40, 60]))):
        types = wire_types(c, part)
        lo = c.base(part) % (46000 - n)
        P = dict(BASEP, Roots=list(range(1, len(types) + 1)), Seeds="=%d..%d" % (lo, lo + n - 1))
        P.update(kw)
        d, L = gen(c, part, "EncGen", types, P)
        cmds = ["enc %d %s" % (x["ty"], prog_text(x["p"])) for x in L]
        exp = [lambda r, x=x: neq("encoded", dict(rc=0, b=hx(x["b"]), drc=0, e=evs(x["ev"])), r) for x in L]
        Drv(c, types, d).judge(part, cmds, exp)
        c.sample({"part": part, "command": cmds[len(cmds) // 2][:300]})


    # every boundary value of every packed type
    part = "packed"
    types = [[F(2, t, REPEATED, packed=1)] for t in range(1, 15)]
    flds = ", ".join("[ty |-> %d, f |-> %s]" % (t, tla(dict(tag=2, type=t, label=REPEATED))) for t in range(1, 15))
    d, L = gen(c, part, "ScalarGen", types, dict(BASEP, Fields="={%s}" % flds, Dense=c.n(2, 12), Lens=[0]))
    cmds = ["enc %d 1 2 %d %s" % (x["ty"], len(x["p"]["v"]), " ".join(hx(v) for v in x["p"]["v"])) for x in L]
    exp = [lambda r, x=x: neq("encoded", dict(rc=0, b=hx(x["p"]["r"]), drc=0, e=[[0, 2, hx(v)] for v in x["p"]["v"]]), r) for x in L]
    Drv(c, types, d, both=False).judge(part, cmds, exp)


# ---------------------------------------------------------------- W03..W06
def inputs(c, part, n, types, **kw):
    lo = c.base(part) % (46000 - n)
    P = dict(BASEP, Roots=list(range(1, len(types) + 1)), Seeds="=%d..%d" % (lo, lo + n - 1), BadPct=0, Cuts=0, Flips=0, Fails=0,
             ReqPct=50, MsgPct=30, Vals=False)
    P.update(kw)
    return gen(c, part, "WireGen", types, P)


def dec_cmd(x, fail=0, code=0):
    return "dec %d %d %d %s" % (x["ty"], fail, code, hexarg(hx(x["b"])))


def dec_exp(x):
    return lambda r: neq("decoded", dict(rc=x["rc"], n=len(x["ev"]), e=evs(x["ev"]), same=1), r)


def val_exp(x):
    return lambda r: neq("validated", dict(rc=x["val"], same=1), r)


def w03(c):
    for part, n, kw in (("records", c.n(900, 12000), dict(Items=8)),
                        ("long", c.n(60, 800), dict(Items=40, Nest=1, StrLens=[0, 1, 100, 127, 128, 200])),
                        ("deep", c.n(200, 2000), dict(Items=3, Nest=7, MsgPct=70))):
        types = wire_types(c, part)
        d, L = inputs(c, part, n, types, **kw)
        cmds = [dec_cmd(x["c"]) for x in L]
        Drv(c, types, d).judge(part, cmds, [dec_exp(x["c"]) for x in L])
        c.sample({"part": part, "command": cmds[len(cmds) // 2][:300]})


def exhaust(c, part, types, alphabet, length, vals):
    """all byte strings over an alphabet"""
    d, L = gen(c, part, "ByteGen", types, dict(BASEP, Roots=list(range(1, len(types) + 1)), Alphabet=alphabet, MaxLen=length, Vals=vals))
    return d, [y for x in L for y in x]


TINY = [
    [F(1, 1, REQUIRED), F(2, 17, OPTIONAL, nested=1), F(3, 9, REPEATED, packed=1)],
    [F(1, 15, OPTIONAL), F(2, 11, REPEATED, packed=1), F(3, 2)],
]


def w04(c):
    part = "malformed"
    types = wire_types(c, part)
    d, L = inputs(c, part, c.n(700, 8000), types, BadPct=85, Flips=3, Cuts=2, Vals=True)
    drv = Drv(c, types, d)
    cmds, exp = [], []
    for x in L:
        for y in [x["c"]] + x["flips"]:
            cmds += [dec_cmd(y), "val %d %s" % (y["ty"], hexarg(hx(y["b"])))]
            exp += [dec_exp(y), val_exp(y)]
    drv.judge(part, cmds, exp)
    c.sample({"part": part, "command": cmds[len(cmds) // 2][:300]})
    part = "cuts"
    types = wire_types(c, part)
    d, L = inputs(c, part, c.n(250, 4000), types, BadPct=0, Cuts=-1, Vals=True)
    cmds, exp = [], []
    for x in L:
        if x["c"]["b"]:
            h = hx(x["c"]["b"])
            k = sorted(x["cuts"], key=lambda y: y["k"])
            cmds += ["cuts %d d %s" % (x["c"]["ty"], h), "cuts %d v %s" % (x["c"]["ty"], h)]
            exp += [lambda r, k=k: neq("cut", [[y["rc"], y["n"]] for y in k], r["c"]), lambda r, k=k: neq("cut, validated", [y["val"] for y in k], r["c"])]
    Drv(c, types, d).judge(part, cmds, exp)
    part = "bytes"
    d, L = exhaust(c, part, TINY, [0, 1, 8, 10, 18, 24, 26, 29, 128, 255], c.n(4, 5), False)
    Drv(c, TINY, d).judge(part, [dec_cmd(x) for x in L], [dec_exp(x) for x in L])
    c.notes["exhaustive"] = "all byte strings of length <= %d over ten bytes, for two types" % c.n(4, 5)


def w05(c):
    for part, n, kw in (("fails", c.n(350, 5000), dict(Items=6, Fails=-1)), ("fails-bad", c.n(150, 1500), dict(Items=5, Fails=-1, BadPct=70)),
                        ("fails-deep", c.n(100, 1500), dict(Items=3, Nest=6, MsgPct=70, Fails=-1))):
        types = wire_types(c, part)
        d, L = inputs(c, part, n, types, **kw)
        cmds, exp = [], []
        for x in L:
            for f in x["fails"]:
                y = dict(x["c"], rc=f["rc"], ev=x["c"]["ev"][:f["n"]])
                cmds.append(dec_cmd(y, f["k"], f["code"]))
                exp.append(dec_exp(y))
        Drv(c, types, d).judge(part, cmds, exp)
        c.sample({"part": part, "command": cmds[len(cmds) // 2][:300]})


def w06(c):
    for part, n, kw in (("complete", c.n(500, 6000), dict(ReqPct=97)), ("cut", c.n(120, 2000), dict(ReqPct=97, Nest=1, Cuts=-1)), ("random", c.n(400, 5000), dict(ReqPct=60, BadPct=20, Flips=3)),
                        ("deep", c.n(150, 2000), dict(Items=2, Nest=6, MsgPct=70, ReqPct=98)),
                        ("repeats", c.n(150, 2000), dict(Items=25, Nest=1, MsgPct=10, ReqPct=95, Flips=2))):
        types = schemas.shift(WREQ, 0)
        for k in range(3):
            types = types + schemas.shift(req_types(c.base((part, k)), 3), len(types))
        if part == "repeats":
            types = WREP
        d, L = inputs(c, part, n, types, Vals=True, **kw)
        cmds, exp = [], []
        for x in L:
            for y in [x["c"]] + x["flips"] + [dict(x["c"], b=x["c"]["b"][:k["k"]], val=k["val"]) for k in x["cuts"]]:
                cmds.append("val %d %s" % (y["ty"], hexarg(hx(y["b"]))))
                if y is not x["c"]:
                    cmds[-1] += " " + hexarg(hx(x["c"]["b"]))
                exp.append(val_exp(y))
        Drv(c, types, d).judge(part, cmds, exp)
        c.notes["verdicts-" + part] = {str(k): sum(1 for x in L for y in [x["c"]] + x["flips"] if y["val"] == k) for k in range(7)}
        c.sample({"part": part, "command": cmds[len(cmds) // 2][:300]})
    d, L = exhaust(c, "bytes", TINY, [0, 1, 8, 10, 16, 18, 128], c.n(4, 6), True)
    Drv(c, TINY, d).judge("bytes", ["val %d %s" % (x["ty"], hexarg(hx(x["b"]))) for x in L], [val_exp(x) for x in L])


PROPS = dict(W01=w01, W02=w02, W03=w03, W04=w04, W05=w05, W06=w06)
