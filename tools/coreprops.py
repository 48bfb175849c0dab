"""Core layer properties D01, D02, B01, A01, A02: spec/{DescGen,IterGen,RegGen,BufGen,ChunkGen} against descriptors, buffers, allocators."""
import json, os, random, subprocess
from common import *
import schemas, wireprops, msgprops
from wireprops import gen, neq

WRAP = ASAN + ["-Wl,--wrap=malloc", "-Wl,--wrap=realloc", "-Wl,--wrap=free"]
NAMES = ["a", "ab", "abc", "abd", "b", "ba", "", "A", "a_b", "a.b", "aa"]


def coredrv(c):
    return c.exe("coredrv", ["coredrv.c", "schema.c"], ASAN, WRAP)


def coredrv_assert(c):
    return c.exe("coredrv-assert", ["coredrv.c", "schema.c"], ASAN, WRAP, debug=True)


def coredrvs(c, both):
    """without and with assertions, and with memory that was never written being tracked"""
    r = [coredrv(c)]
    if both:
        r.append(coredrv_assert(c))
        if CLANG:
            r.append(c.exe("coredrv-msan", ["coredrv.c", "schema.c"], MSAN, MSAN + WRAP[1:], cc=CLANG))
    return r


def run_lines(exe, cmds):
    """one JSON list per command; a crash is {'crash': text}"""
    res, crashes = [], 0
    while len(res) < len(cmds):
        try:
            p = subprocess.run([exe], input="\n".join(cmds[len(res):]) + "\n", stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                               text=True, env=ASAN_ENV, timeout=600)
            out, err, rc = p.stdout, p.stderr, p.returncode
        except subprocess.TimeoutExpired as e:
            out, err, rc = (e.stdout or b"").decode() if isinstance(e.stdout, bytes) else (e.stdout or ""), "timeout", -1
        for line in out.split("\n"):
            if line:
                try:
                    res.append(json.loads(line))
                except ValueError:
                    break
        if len(res) < len(cmds):
            if rc == 0:
                raise CheckError("coredrv stopped early")
            msg = [l for l in err.split("\n") if "ERROR" in l or "SUMMARY" in l or "timeout" in l or "Assertion" in l]
            res.append({"crash": "crash (exit %s): %s" % (rc, " ".join(msg)[:300] or err[-200:])})
            crashes += 21 if rc in (97, -1) else 1
            if crashes > 20:
                res += [{"crash": "not run"}] * (len(cmds) - len(res))
    return res


def judge(c, part, cmds, checks, limit=3, both=True):
    """checks: functions (list of results) -> text or None; both: with assertions, too"""
    bad = []
    for exe in coredrvs(c, both):
        for cmd, f, r in zip(cmds, checks, run_lines(exe, cmds)):
            if isinstance(r, dict):
                what = None if r["crash"] == "not run" else r["crash"]
            else:
                what = f(r)
                c.steps += len(r)
            if what:
                bad.append((len(cmd), cmd, what))
    bad.sort()
    for _, cmd, what in bad[:limit]:
        c.violation("%s: '%s': %s" % (part, cmd[:400], what[:800]), dict(kind="core", script=[cmd], diverges=what))
    c.traces += len(cmds)
    c.sample({"part": part, "command": cmds[len(cmds) // 2][:300]})
    return len(bad)


def diff(want, names=None):
    def f(got):
        if len(want) != len(got):
            return "expected %d results, got %d" % (len(want), len(got))
        for i, (a, b) in enumerate(zip(want, got)):
            if a != b:
                return "%s: expected %s, got %s" % (names[i] if names else "result %d" % i, json.dumps(a), json.dumps(b))
    return f


# ---------------------------------------------------------------- D01
def seeds(c, part, n):
    lo = c.base(part) % (46000 - n)
    return "=%d..%d" % (lo, lo + n - 1)


def d01(c):
    for part, mx, n in (("subsets", c.n(8, 11), 0), ("random", 6, c.n(400, 6000)), ("enums", 1, 0), ("enums-random", 1, c.n(400, 6000))):
        d, L = gen(c, part, "DescGen", None, dict(Part=part, MaxTag=mx, Seeds=seeds(c, part, n or 1), Names=NAMES))
        cmds, chk = [], []
        enum = part.startswith("enums")
        for x in L:
            ent = " ".join("%d %%%s" % (e["k"], e["s"]) for e in x["n"])
            tab = "%d %s" % (len(x["n"]), ent)
            q, want, names = [], [], []
            for y in sorted(x["q"], key=lambda y: y["k"]):
                q.append("%s 1 %d" % ("e" if enum else "t", y["k"]))
                want.append([1 if y["r"] else 0, (y["k"] if y["r"] else 0) if enum else y["r"]])
            for y in sorted(x["m"], key=lambda y: y["s"]):
                q.append("%s 1 %%%s" % ("m" if enum else "n", y["s"]))
                want.append(y["r"] if enum else [1 if y["r"] else 0, y["r"]])
            cmds.append("desc %s 0 %s" % ("0 1 " + tab if enum else "1 " + tab + " 0", " ".join(q)))
            chk.append(diff(want, q))
        judge(c, part, cmds, chk)
    part = "iterators"
    d, L = gen(c, part, "IterGen", None, dict(Sizes=set(range(0, c.n(5, 6))), Length=c.n(5, 6)))
    cmds, chk = [], []
    for x in L:
        n, ops = x["n"], "".join(h[0] for h in x["h"])
        idx = [2 * i + (i // 2) for i in range(n)]            # oneof members with gaps
        fields = " ".join("%d %%f%d" % (i + 1, i) for i in range(3 * n))
        plain = " ".join("%d %%f%d" % (2 * i + 1, i) for i in range(n))
        cmds.append("desc 2 %d %s %d %s 1 %d %s 1 2 %d %s i d 1 %s i e 1 %s i o 1 %s" %
                    (n, plain, 3 * n, fields, n, plain, n, " ".join(map(str, idx)), ops, ops, ops))
        want = [[[n, 1 if n == 0 else 0]] + [[h[1], h[2], h[2]] for h in x["h"]]] * 2
        want.append([[n, 1 if n == 0 else 0]] + [[h[1], h[2], idx[h[2] - 1] + 1 if h[2] else 0] for h in x["h"]])
        chk.append(diff(want, ["descriptor iterator", "enum iterator", "oneof iterator"]))
    judge(c, part, cmds, chk)
    c.notes["bounds"] = "all sets of field numbers up to %d, all enums with numbers -3..3 occurring up to twice, all iterations of up to %d steps over up to %d entries" % (c.n(8, 11), c.n(5, 6), c.n(4, 5))


# ---------------------------------------------------------------- D02
def ext_worlds(c):
    """descriptor tables: two bases, extensions of each"""
    F1 = lambda *p: [dict(t=t, s=s) for t, s in p]
    out = [
        # interleaved numbers, an empty base, an extension without fields
        ([F1((1, "a"), (2, "ab"), (5, "b"), (40, "c")), [], F1((3, "x"), (4, "abc"), (41, "y")), F1((10, "e"), (20, "f")), F1((6, "g"), (39, "h")),
          F1((1, "a"), (536870911, "z")), F1((7, "k"))], [0, 0, 1, 1, 1, 2, 2]),
        ([F1((100, "m"), (200, "n")), F1((1, "m"), (2, "o")), F1((1, "p"), (2, "q"), (3, "r")), F1((99, "s"), (101, "t"), (201, "u")), [], F1((3, "p"), (4, "q")), F1((1000, "w"))],
         [0, 0, 1, 1, 1, 2, 2]),
    ]
    for k in range(c.n(1, 6)):
        r = random.Random(c.base(("world", k)))
        desc, base = [], [0, 0, 1, 1, 1, 2, 2]
        used = {1: set(), 2: set()}
        n = 0
        for i, b in enumerate(base):
            own = used[b or i + 1]
            fs = []
            for _ in range(r.randrange(0, 5)):
                t = r.choice([r.randint(1, 9), r.randint(1, 40), r.randint(1, 536870911)])
                if t not in own:
                    own.add(t)
                    fs.append((t, "n%d" % n))
                    n += 1
            desc.append(F1(*sorted(fs)))
        out.append((desc, base))
    return out


def d02(c):
    for w, (desc, base) in enumerate(ext_worlds(c)):
        part = "register-%d" % w
        tags = sorted({f["t"] for d in desc for f in d} | {1, 2, 3, 8, 42, 150, 536870910})
        names = sorted({f["s"] for d in desc for f in d} | {"", "nope", "aa"})
        d, L = gen(c, part, "RegGen", None, dict(Desc=desc, Base=base, Length=c.n(4, 5), Tags=tags, Names=names))
        byh = {json.dumps(x["h"]): x["a"] for x in L}
        tab = "%d %s 0 0" % (len(desc), " ".join("%d %s" % (len(t), " ".join("%d %%%s" % (f["t"], f["s"]) for f in t)) for t in desc))
        bases = [i + 1 for i, b in enumerate(base) if b == 0]
        cmds, chk = [], []
        for x in L:
            if len(x["h"]) < c.n(4, 5):
                continue
            q, want, nm = [], [], []
            for k in range(len(x["h"]) + 1):
                if k:
                    q.append("x %d %d" % tuple(x["h"][k - 1]))
                    want.append(0)
                    nm.append("extend")
                    a = byh[json.dumps(x["h"][:k])]
                    for b in bases:
                        for i, t in enumerate(tags):
                            q.append("t %d %d" % (b, t)); want.append(a[b - 1]["t"][i]); nm.append("after %s, field %d of descriptor %d" % (x["h"][:k], t, b))
                        for i, t in enumerate(names):
                            q.append("n %d %%%s" % (b, t)); want.append(a[b - 1]["s"][i]); nm.append("after %s, field '%s' of descriptor %d" % (x["h"][:k], t, b))
                else:
                    for b in bases:
                        for t in tags:
                            own = [f["t"] for f in desc[b - 1]]
                            q.append("t %d %d" % (b, t)); want.append([b, own.index(t) + 1] if t in own else [0, 0]); nm.append("field %d of descriptor %d" % (t, b))
            cmds.append("desc %s %s" % (tab, " ".join(q)))
            chk.append(diff(want, nm))
        judge(c, part, cmds, chk)
    ext_parts(c)


def ext_types(c, salt):
    """types where every other field lives in an extension, with several extensions and interleaved numbers"""
    r = random.Random(c.base(("ext", salt)))
    types = schemas.BASE + schemas.shift(schemas.random_types(c.base((salt, 1)), 3), 4)
    out = []
    for t in types:
        n = r.randint(1, 3)
        t = [dict(f) for f in t]
        for f in t:
            if f["label"] != schemas.ONEOF and r.random() < .55:
                f["ext"] = r.randint(1, n)
        used = sorted({f["ext"] for f in t if f["ext"]})
        for f in t:
            if f["ext"]:
                f["ext"] = used.index(f["ext"]) + 1
        out.append(t)
    return out


def ext_parts(c):
    types = ext_types(c, "msg")
    msgprops.run_part(c, "messages", c.n(120, 2500), types, list(range(1, len(types) + 1)), Depth=12, Kinds=["m", "m", "f", "c", "o"])
    types = ext_types(c, "wire")
    d, L = wireprops.inputs(c, "decoder", c.n(250, 3000), types, Items=8)
    cmds = [wireprops.dec_cmd(x["c"]) for x in L]
    wireprops.Drv(c, types, d).judge("decoder", cmds, [wireprops.dec_exp(x["c"]) for x in L])
    n = c.n(150, 2000)
    P = dict(wireprops.BASEP, Roots=list(range(1, len(types) + 1)), Seeds=seeds(c, "encoder", n), Calls=4, Nest=2, Counts=[1, 2, 2, 3, 5])
    d, L = gen(c, "encoder", "EncGen", types, P)
    cmds = ["enc %d %s" % (x["ty"], wireprops.prog_text(x["p"])) for x in L]
    wireprops.Drv(c, types, d).judge("encoder", cmds, [lambda r, x=x: neq("encoded", dict(rc=0, b=wireprops.hx(x["b"]), drc=0, e=wireprops.evs(x["ev"])), r) for x in L])


# ---------------------------------------------------------------- B01
def bytehex(b):
    return bytes(b).hex()


def bufs(c, part, allocs, salt=0, **kw):
    P = dict(Kinds=["copy", "empty", "zero", "jcopy", "jempty", "jzero", "bad", "jbad"], Sizes=[1, 2, 3, 8], Depth=2, Lens=[1, 2, 3], Fails=[0], Seeds="={}")
    n = kw.pop("n", 0)
    if n:
        P["Seeds"] = seeds(c, part, n)
    P.update(kw)
    d, L = gen(c, part, "BufGen", None, P)
    cmds, chk = [], []
    off = lambda x: "M" if x < 0 else str(x)
    num = 0
    for x in L:
        kind = x["kind"]
        al = allocs[num % len(allocs)]
        num += 1
        out, names, ops = [], [], []
        for h in x["h"]:
            o = h["op"]
            t = {"p": lambda: "p %s %d" % (off(o["s"]), (o["d"] or [0])[0]), "g": lambda: "g " + bytehex(o["d"]), "d": lambda: "d",
                 "w": lambda: "w %s %s %s" % (off(o["s"]), off(o["e"]), bytehex(o["d"])), "c": lambda: "c %s %s" % (off(o["s"]), off(o["e"])),
                 "jw": lambda: "jw %s %s %s %s" % (off(o["g"]), off(o["s"]), off(o["e"]), bytehex(o["d"])),
                 "jc": lambda: "jc %s %s %s" % (off(o["g"]), off(o["s"]), off(o["e"]))}[o["o"]]()
            ops.append(("?%d " % o["fail"] if o["fail"] else "") + t)
        first = None
        cmds.append("buf %s %s %s %s" % (kind, al, hexarg(bytehex(x["m"])), " ".join(ops)))
        chk.append(buf_check(x, ops))
    judge(c, part, cmds, chk, both=False)      # assertions rule out origins behind the offset


def buf_obs(o):
    return [o["valid"], bytehex(o["b"]), o["empty"], o["alias"], bytehex(o["mem"]), o["err"]]


def buf_check(x, ops):
    kind = x["kind"]
    bad = kind.endswith("bad")
    m = bytehex(x["m"])
    content = "" if kind.endswith("empty") else m
    init = [0, "", -1, -1, m, 1] if bad else [1, content, 0 if content else 1, (1 if kind.endswith("zero") else 0) if content else -1, m, 0]

    def f(got):
        prev = init
        if len(got) != len(ops) + 2:
            return "expected %d results, got %d" % (len(ops) + 2, len(got))
        if got[0][1:] != init:
            return "after creation: expected %s, got %s" % (init, got[0][1:])
        for h, o, g in zip(x["h"], ops, got[1:]):
            new = buf_obs(h["obs"])
            err = 0 not in h["rc"]
            if h["op"]["fail"]:
                hit, outs = g[0], g[1:]
                if hit and outs[0][0]:
                    if outs[0][0] not in (1, -1) and outs[0][0] not in h["rc"]:
                        return "'%s' with a failing request: unexpected error %s" % (o, outs[0][0])
                    if outs[0][1:] != prev:
                        return "'%s' with a failing request: expected %s unchanged, got %s" % (o, prev, outs[0][1:])
                elif hit and err:
                    return "'%s' with a failing request: succeeded instead of one of %s" % (o, h["rc"])
                g = outs[-1]
            if g[0] not in h["rc"]:
                return "'%s': expected result %s, got %s" % (o, h["rc"], g[0])
            if g[1:] != new:
                return "'%s': expected %s, got %s" % (o, new, g[1:])
            prev = new
        if got[-1] != ["live", 0, prev[4]]:
            return "after destruction: expected 0 live blocks and source %s, got %s" % (prev[4], got[-1])
    return f


def b01(c):
    bufs(c, "all", ["d", "f"], Sizes=[1, 3], Lens=[1, 3], Depth=2)
    bufs(c, "random", ["d", "f", "k1", "k8", "k4096"], n=c.n(1500, 20000), Depth=c.n(14, 30), Lens=[1, 1, 2, 3, 5, 9], Sizes=[1, 2, 3, 8, 20])


# ---------------------------------------------------------------- A01
def chunks(c, part, **kw):
    P = dict(Slots=3, Caps=[1, 8], Seeds="={}", Depth=3, Fails=[0], Extra=[1])
    n = kw.pop("n", 0)
    if n:
        P["Seeds"] = seeds(c, part, n)
    P.update(kw)
    d, L = gen(c, part, "ChunkGen", None, P)
    cmds, chk = [], []
    size = lambda n: ("M-%d" % (-n - 1) if n < -1 else "M") if n < 0 else str(n)
    for x in L:
        ops = []
        for h in x["h"]:
            o = h["op"]
            t = {"a": "a %d %s" % (o["i"] - 1, size(o["n"])), "r": "r %d %s" % (o["i"] - 1, size(o["n"])), "f": "f %d" % (o["i"] - 1), "D": "D"}[o["o"]]
            ops.append(("?%d " % o["fail"] if o["fail"] else "") + t)
        null = x["cap"] == -99                                  # creating the allocator fails
        cmds.append("chunk %s %s%s" % ("8" if null else size(x["cap"]), "!1 " if null else "", " ".join(ops)))
        chk.append(chunk_check(x, ops))
    judge(c, part, cmds, chk)


def chunk_check(x, ops):
    def norm(b):
        out = [[list(r) for r in s] for s in b]
        for s in out:                                            # adjacent runs of one stamp
            k = 1
            while k < len(s):
                if s[k][0] == s[k - 1][0]:
                    s[k - 1][1] += s.pop(k)[1]
                else:
                    k += 1
        return out + [[]] * (16 - len(out))

    def f(got):
        prev = norm([[]] * 16)
        for h, o, g in zip(x["h"], ops, got):
            new = norm(h["b"])
            if h["op"]["o"] == "D":
                if g[0] != 1:
                    return "'D': %s" % g
                break
            if h["op"]["fail"]:
                hit, outs = g[0], g[1:]
                if hit and not outs[0][0] and outs[0][1:] != [0, prev]:
                    return "'%s' with a failing request: expected blocks %s unchanged, got %s" % (o, prev, outs[0])
                if hit and outs[0][0] and not h["ok"]:
                    return "'%s' with a failing request: granted" % o
                g = outs[-1]
            want = [h["ok"], 0, new]
            if g != want:
                return "'%s': expected %s, got %s" % (o, want, g)
            prev = new
        if got[-1] != ["live", 0]:
            return "after destruction: %s blocks are still allocated" % got[-1][1]
    return f


def a01(c):
    chunks(c, "all", Caps=[1, 8], Depth=c.n(3, 4), Fails=[0, 1], Slots=2)
    chunks(c, "random", n=c.n(1500, 15000), Caps=[1, 2, 8, 8, 64, 4096, -99], Depth=c.n(25, 60), Slots=8, Fails=[0, 0, 1], Extra=[-1, -16, -17, -18, -4096, -4097, 100000])
    chunks(c, "huge", n=c.n(50, 300), Caps=[-1, -2, -16, -17, -30], Depth=6, Slots=4, Fails=[0, 1])


PROPS = dict(A01=a01, B01=b01, D01=d01, D02=d02)
