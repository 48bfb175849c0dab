"""M16: malformed messages. Programs of spec/BadGen.tla are run on the library, the recorded runs validated by TLC against spec/BadTrace.tla."""
import json, os, subprocess
from common import *
import schemas, wireprops, coreprops, msgcheck

OPS_M = ["within", "within", "mnested", "fcreate", "fnested", "ccreate", "ccreate", "ccreate", "cnested", "oneof", "mhas", "mget", "mget", "mput", "mput",
         "mmatch", "merase", "mclear", "nhas", "nget", "nput", "nmatch", "nerase"]
OPS_F = ["fget", "fput", "fput", "fmatch", "fclear", "mfromfld", "mfromfld"]
OPS_C = ["cnext", "cnext", "cnext", "cnext", "crewind", "cseek", "cmatch", "cget", "cput", "cput", "cerase", "mfromcur", "ffromcur"]
OPS_O = ["ocase", "ocase", "oclear"]


def script(x, mode):
    lines = ["journal 1 %s %s" % (mode, hexarg(bytes(x["b"]).hex())), "msg 1 1 %d" % x["ty"]]
    nh = 1
    for op in x["p"]:
        nh += 1 if op["new"]["k"] else 0
        o = dict(op, v=[[b, 1] for b in op["v"]])
        line = msgcheck.op_line(o, nh, None)
        if op["o"] == "oneof":
            line = line.replace("@TY@", str(op["new"]["ty"]))
        lines.append(line)
    return lines


def run_sessions(c, exe, schema, scripts):
    """results per script, and crash text per script"""
    res, crash, i, hangs = [], {}, 0, 0
    while i < len(scripts):
        text = []
        for k, s in enumerate(scripts[i:]):
            text.append("session %d loc" % k)
            text += s
            text.append("end")
        p = subprocess.run([exe, schema], input="\n".join(text) + "\n", stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=ASAN_ENV, timeout=900)
        got = 0
        cur = None
        for line in p.stdout.split("\n"):
            if not line:
                continue
            try:
                d = json.loads(line)
            except ValueError:
                break
            if "session" in d:
                cur = []
                res.append(cur)
                got += 1
            elif "end" not in d:
                cur.append(d)
        if p.returncode == 0:
            break
        if not got:
            raise CheckError("driver failed: exit %s %s" % (p.returncode, p.stderr[-500:]))
        i += got
        msg = [l for l in p.stderr.split("\n") if "ERROR" in l or "SUMMARY" in l or "Assertion" in l]
        crash[i - 1] = "crash (exit %s): %s" % (p.returncode, " ".join(msg)[:400] or p.stderr[-300:])
        hangs += p.returncode == 97
        if len(crash) > 20 or hangs:
            break
    return res, crash


def part(c, name, n, types, **kw):
    P = dict(wireprops.BASEP, Roots=list(range(1, len(types) + 1)), Seeds=coreprops.seeds(c, name, n), BadPct=70, Cuts=0, Flips=1, Fails=0, ReqPct=20,
             MsgPct=40, Vals=False, Length=12, MaxH=7, OpsM=OPS_M, OpsF=OPS_F, OpsC=OPS_C, OpsO=OPS_O)
    modes = kw.pop("modes", ["c", "z"])
    P.update(kw)
    d, L = wireprops.gen(c, name, "BadGen", types, P, cfg=["INIT BadInit", "NEXT BadNext", "INVARIANT Holds", "CHECK_DEADLOCK FALSE"])
    text = schemas.to_text(types)
    schema = os.path.join(d, "schema.txt")
    open(schema, "w").write(text)
    exe, *others = c.both("msgdrv", ["msgdrv.c", "schema.c"])
    L = [x for x in L if x["b"]] + [x for x in L if not x["b"]][:20]
    scripts = [script(x, modes[k % len(modes)] if x["b"] else "e") for k, x in enumerate(L)]
    res, crash = run_sessions(c, exe, schema, scripts)
    for other in others:
        res2, crash2 = run_sessions(c, other, schema, scripts)
        for k in range(min(len(res), len(res2))):
            if k not in crash and (k in crash2 or res2[k] != res[k]):
                crash[k] = crash2.get(k, "the run with another build (assertions, or another compiler) differs")
    for k in sorted(crash, key=lambda k: len(scripts[k]))[:3]:
        c.violation("%s: %s" % (name, crash[k]), dict(kind="msg", loc=True, schema=text, script=scripts[k], diverges=crash[k]))
    path = os.path.join(d, "runs.ndjson")
    runs = []
    with open(path, "w") as fp:
        for k, (x, out) in enumerate(zip(L, res)):
            if k in crash or len(out) != len(scripts[k]):
                continue
            runs.append(k)
            t = [dict(o, op=op) for op, o in zip(x["p"], out[2:])]
            fp.write(json.dumps(dict(ty=x["ty"], b=out[1]["b"], h=out[1]["h"], t=t)) + "\n")
            c.steps += len(t)
    if not runs:
        raise CheckError("no runs recorded for " + name)
    d2 = c.sub(name + "-trace")
    dd = dict(Schema=schemas.to_tla(types), File=tla(path))
    dd.update(Items="0", Nest="0", Sorted="FALSE", Unknown="0", StrLens="<<0>>")
    write_mc(d2, "MC", "BadTrace", dd, ["INIT Init", "NEXT Next", "CHECK_DEADLOCK FALSE"])
    r = tlc(d2, "MC", timeout=3000, heap="10g")
    need_ok(r, name)
    c.tlc_stats(name + "-trace", r)
    bad = []
    for s in r.printed:
        v = json.loads(s)
        k = runs[v["run"] - 1]
        bad.append((v["step"], len(L[k]["b"]), k, v["why"]))
    bad.sort()
    seen = set()
    for step, _, k, why in bad:
        key = (scripts[k][step + 1].split()[0], why[0])
        if key in seen or len(seen) >= 8:
            continue
        seen.add(key)
        before = res[k][step] if step >= 1 else res[k][1]
        c.violation("%s: step %d '%s' on %s: %s (result %s)" % (name, step, scripts[k][step + 1], bytes(before["b"]).hex(), "; ".join(why), json.dumps(res[k][step + 1])[:300]),
                    dict(kind="msg", loc=True, schema=text, script=scripts[k][:step + 2], diverges=why))
    c.traces += len(runs)
    c.sample({"part": name, "run": scripts[runs[len(runs) // 2]][:8]})
    return len(bad)


def M16(c):
    types = wireprops.wire_types(c, "bad")
    part(c, "malformed", c.n(450, 4000), types)
    part(c, "cut", c.n(120, 1200), types, BadPct=10, Flips=0, Cuts=4, Length=8)
    part(c, "deep", c.n(150, 1500), types, Nest=4, Items=3, MsgPct=80, BadPct=90, Length=14)
    t = schemas.BLOBS + schemas.shift(schemas.blobs(schemas.random_types(c.base("blobs"), 3), c.base("blob")), 2)
    part(c, "blobs", c.n(250, 2500), t, Nest=3, Items=4, Length=14, OpsM=OPS_M + ["fcreate"] * 5 + ["fnested"] * 2)
    part(c, "erase", c.n(200, 2000), types, Items=8, OpsM=["merase", "merase", "mput", "ccreate", "oneof", "within", "fcreate", "mclear", "nput", "nerase"],
         OpsF=["fput", "fclear", "fget"], OpsC=["cnext", "cnext", "cerase", "cput", "cput"], OpsO=["oclear", "ocase"])


PROPS = dict(M16=M16)
