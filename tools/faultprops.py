"""A02: the behaviours of spec/{BufGen,ChunkGen,EncGen,MsgGen} replayed with failing allocation requests."""
from common import *
import schemas, wireprops, msgprops, coreprops, msgcheck
from wireprops import gen, hx, Drv

MULTI = "multi-step-edit"


# ---------------------------------------------------------------- encoder
def calls_of(p):
    """calls in execution order: submessages are encoded before the call that embeds them"""
    out = []
    for c in p:
        if c["m"]:
            for v in c["v"]:
                out += calls_of(v)
        out.append((hx(c["b"]), len(c["v"])))
    return out


def enc_check(calls):
    def f(got):
        if len(got) != len(calls) + 1:
            return "expected %d calls, got %d" % (len(calls), len(got) - 1)
        for k, ((b, n), (before, hit, rc, after, rc2, final)) in enumerate(zip(calls, got)):
            want = before + b
            if hit and rc == 0 and after != want:
                return "call %d reports success although a request failed: expected %s, got %s" % (k + 1, want, after)
            if not hit and (rc or after != want):
                return "call %d: expected %s, got %s (result %d)" % (k + 1, want, after, rc)
            if hit and rc:
                if n == 1 and after != before:
                    return "call %d failed but changed the buffer from %s to %s" % (k + 1, before, after)
                if n > 1 and not (after == before or (after.startswith(before) and want.startswith(after) and after != want)):
                    return "call %d failed and left %s (before %s)" % (k + 1, after, before)
                if n > 1:
                    return None
                if rc2 or final != want:
                    return "call %d repeated with memory available: expected %s, got %s (result %d)" % (k + 1, want, final, rc2)
        if got[-1]:
            return "%d blocks leaked" % got[-1]
    return f


def encoders(c):
    import random
    types = wireprops.wire_types(c, "enc")
    r = random.Random(c.base("patterns"))
    n = c.n(500, 6000)
    P = dict(wireprops.BASEP, Roots=list(range(1, len(types) + 1)), Seeds=coreprops.seeds(c, "encoder", n), Calls=4, Nest=2, Counts=[1, 1, 2, 3, 5])
    d, L = gen(c, "encoder", "EncGen", types, P)
    cmds, chk = [], []
    for x in L:
        calls = calls_of(x["p"])
        pats = ["1", "2"] if c.quick else ["1", "2", "3"]
        if any(m > 1 for _, m in calls):
            # a failed call with several values ends the comparison: fail only one call at a time
            for k in range(len(calls)):
                pats.append("0" * k + r.choice("1234") + "0" * len(calls))
        else:
            pats.append("".join(r.choice("0123") for _ in range(7)))
        for pat in pats:
            cmds.append("encf %d %s %s" % (x["ty"], pat, wireprops.prog_text(x["p"])))
            chk.append(enc_check(calls))
    drv = Drv(c, types, d)
    res = drv.run(cmds)
    drv.run = lambda _: [r if isinstance(r, dict) else {"l": r} for r in res]
    drv.judge("encoder", cmds, [lambda r, f=f: f(r["l"]) for f in chk])


# ---------------------------------------------------------------- messages
def usable(x):
    return x[:1] == "v" or x[:1] == "t"


def first_step(types, s, old, new):
    """requests that belong to the first step of the operation: one for the journal, one for the buffer if it grows first"""
    if s is None or sum(map(len, new["j"])) <= sum(map(len, old["j"])):
        return 1
    ty = s["ty"]
    for t in list(s["op"]["path"]) or [s["op"]["tag"]]:
        f = [f for f in types[ty - 1] if f["tag"] == t]
        if not f:
            break
        if f[0]["label"] == schemas.ONEOF:                     # the other members are erased first
            return 1
        ty = f[0]["nested"]
        if not ty:
            break
    return 2


def msg_judge(c, types, step, lines, exp, out):
    """out: driver results of one session, including the end line; returns (step, text) or None"""
    stopped, prev = False, None
    for k, (line, e) in enumerate(zip(lines, exp)):
        if k >= len(out):
            return k, None                                    # crash
        g = out[k]
        if stopped:
            continue
        if e is None:
            continue
        if "hit" not in g:
            d = msgcheck.compare(e, g)
            if d:
                return k, d
        else:
            f = int(line[1:line.index(" ")])
            a = g["a"]
            if not g["hit"] or a["rc"] == 0:
                d = msgcheck.compare(e, a)
                if d:
                    return k, d + (" (request %d failed, success reported)" % f if g["hit"] else "")
            elif g["same"]:
                old = dict(prev, rc=a["rc"], v="")
                d = msgcheck.compare(old, a)
                if d:
                    return k, "failed with %d, but %s" % (a["rc"], d)
                n = len(prev["h"]) + 1
                if str(n) in a["h"] and usable(a["h"][str(n)]):
                    return k, "creation failed with %d, but the handle is usable: %s" % (a["rc"], a["h"][str(n)])
                d = msgcheck.compare(e, g["b"])
                if d:
                    return k, "repeated with memory available: " + d
            elif f <= first_step(types, step[k], prev, e):
                return k, "request %d failed, the error %d is reported, but the bytes of the message changed" % (f, a["rc"])
            else:
                c.partial.setdefault(line.split()[1], (lines[:k + 1], f, a["rc"]))
                stopped = True
        prev = e
    if len(out) > len(lines) and out[len(lines)].get("end"):
        return len(lines) - 1, "%d blocks leaked or freed twice" % out[len(lines)]["end"]
    return None


def messages(c, name, n, **kw):
    types = msgprops.all_types(c, name)
    roots = [1, 1, 2, 3, 4] + list(range(5, len(types) + 1))
    schema, text, raw = msgprops.generate(c, name, n, types, roots, **kw)
    items = [msgcheck.behaviour(b, True) for b in raw]
    # printed step of each script line
    steps = [[None] * (len(x[0]) - len(b["t"]) + 1) + b["t"][1:] for x, b in zip(items, raw)]
    exes = c.both("msgdrv", ["msgdrv.c", "schema.c"])
    bad, i, crashes = [], 0, 0
    while i < len(items) and crashes < 40:
        # the second half with assertions
        half = len(items) // 2 if i < len(items) // 2 else len(items)
        res, rc, err = msgcheck.run_driver(exes[half == len(items)], schema, [x[0] for x in items[i:half]], ends=True)
        for k, out in enumerate(res):
            lines, exp = items[i + k]
            v = msg_judge(c, types, steps[i + k], lines, exp, out)
            c.steps += len(out)
            crashed = rc != 0 and k == len(res) - 1 and len(out) <= len(lines)
            if crashed:
                msg = [l for l in err.split("\n") if "ERROR" in l or "SUMMARY" in l or "Assertion" in l]
                v = (min(len(out), len(lines) - 1), "crash (exit %s): %s" % (rc, " ".join(msg)[:400] or err[-300:]))
            if v and v[1]:
                bad.append((v[0], lines, v[1]))
        if rc == 0:
            i = half
            continue
        i += max(1, len(res))
        crashes += 40 if rc in msgcheck.HANGS else 1
    bad.sort(key=lambda x: (x[0], len(x[1])))
    for k, lines, what in bad[:3]:
        c.violation("%s: step %d '%s': %s" % (name, k, lines[k][:200], what[:1500]), dict(kind="msg", schema=text, script=lines[:k + 1], diverges=what))
    c.traces += len(items)
    c.sample({"part": name, "behaviour": items[len(items) // 2][0][:12]})


def A02(c):
    c.partial = {}
    coreprops.bufs(c, "buffers", ["d", "f", "k8"], Sizes=[1, 3], Lens=[1, 3], Depth=c.n(1, 2), Fails=[0, 1, 2])
    coreprops.bufs(c, "buffers-random", ["d", "f", "k1", "k8", "k4096"], n=c.n(1200, 15000), Depth=c.n(12, 30), Lens=[1, 1, 2, 3, 5, 9], Sizes=[1, 2, 3, 8, 20], Fails=[0, 1, 1, 2])
    coreprops.chunks(c, "chunks", n=c.n(1000, 10000), Caps=[1, 2, 8, 8, 64, 4096, -99], Depth=c.n(25, 60), Slots=8, Fails=[0, 1, 1, 2], Extra=[-1, -17, 5000])
    encoders(c)
    messages(c, "messages", c.n(1200, 12000), Fails=[0, 0, 1, 1, 2, 2, 3, 4, 5, 6], Modes=["c", "c", "e"])
    messages(c, "boundary", c.n(500, 6000), Fails=[0, 1, 2, 2, 3, 4, 5], StrLens=msgprops.EDGE, Items=4, Nest=3)
    messages(c, "copies", c.n(300, 4000), Fails=[0, 1, 2, 3, 4], Items=4, Nest=2, NJ=2, MaxH=14,
             OpsM=["mputm"] * 5 + ["nputm"] * 4 + ["within", "mnested", "mput", "nput", "merase", "ccreate", "cnested"],
             OpsC=["cnext", "cnext", "cputm", "cputm", "cputm", "mfromcur"])
    ops = sorted(c.partial)
    c.notes["partially_applied"] = {o: dict(request=c.partial[o][1], result=c.partial[o][2]) for o in ops}
    if ops:
        lines, f, rc = c.partial[ops[0]]
        c.known_finding(MULTI, "an edit of several steps applied some of them before a later request failed (%s)" % ", ".join(ops),
                        dict(kind="msg", script=lines))


PROPS = dict(A02=A02)
