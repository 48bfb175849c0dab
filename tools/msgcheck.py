"""Message layer: behaviours of spec/MsgGen.tla replayed into the real library."""
import json, os, subprocess, concurrent.futures as cf
from common import *
import schemas

OPS_M_DEFAULT = ["within", "mnested", "fcreate", "fnested", "ccreate", "ccreate", "cnested", "oneof", "mhas", "mget", "mput", "mput",
                 "mput", "mmatch", "merase", "mclear", "nhas", "nget", "nput", "nput", "nmatch", "nerase"]
OPS_F_DEFAULT = ["fget", "fput", "fput", "fput", "fmatch", "fclear", "mfromfld", "mfromfld"]
OPS_C_DEFAULT = ["cnext", "cnext", "cnext", "crewind", "cseek", "cmatch", "cget", "cput", "cput", "cerase", "mfromcur", "ffromcur"]
OPS_O_DEFAULT = ["ocase", "oclear"]


def profile(**kw):
    p = dict(Depth=14, Modes=["c"], NJ=1, Items=6, Nest=2, Sorted=False, Unknown=15,
             StrLens=[0, 1, 2, 3, 7], Kinds=["m", "m", "f", "c", "o"],
             OpsM=OPS_M_DEFAULT, OpsF=OPS_F_DEFAULT, OpsC=OPS_C_DEFAULT, OpsO=OPS_O_DEFAULT, MaxH=9, All=0, Fails=[0])
    p.update(kw)
    return p


def op_line(op, hid, types_of):
    """hid: index of the handle this operation creates, if any"""
    o, h = op["o"], op["h"]
    v = hexarg(rle_hex(op["v"]))
    path = " ".join(str(t) for t in op["path"])
    if o == "msg": return "msg %d %d %d" % (hid, op["j"], types_of[op["j"]])
    if o in ("within", "fcreate", "ccreate"): return "%s %d %d %d" % (o, hid, h, op["tag"])
    if o == "oneof": return "oneof %d %d @TY@ %d" % (hid, h, op["tag"])
    if o in ("mnested", "fnested", "cnested"): return "%s %d %d %s" % (o, hid, h, path)
    if o == "mfromfld": return "mfromfld %d %d %d" % (hid, h, op["tag"])
    if o in ("mfromcur", "ffromcur"): return "%s %d %d" % (o, hid, h)
    if o in ("mhas", "mget", "merase"): return "%s %d %d" % (o, h, op["tag"])
    if o in ("mput", "mmatch"): return "%s %d %d %s" % (o, h, op["tag"], v)
    if o == "mputm": return "mputm %d %d %d" % (h, op["tag"], op["s"])
    if o in ("nhas", "nget", "nerase"): return "%s %d %s" % (o, h, path)
    if o in ("nput", "nmatch"): return "%s %d %s %s" % (o, h, v, path)
    if o == "nputm": return "nputm %d %d %s" % (h, op["s"], path)
    if o in ("fput", "fmatch", "cput", "cseek", "cmatch"): return "%s %d %s" % (o, h, v)
    if o == "cputm": return "cputm %d %d" % (h, op["s"])
    return "%s %d" % (o, h)


CREATES = {"msg", "within", "mnested", "mfromcur", "mfromfld", "ffromcur", "fcreate", "fnested", "ccreate", "cnested", "oneof"}


def probe_text(p):
    s = p["s"]
    if s == "v": return "v" + rle_hex(p["v"])
    if s == "c": return "v%s@%d" % (rle_hex(p["v"]), p["n"])
    if s == "x": return "x"
    if s == "y": return "x@%d" % p["n"]
    return "%s%d" % (s, p["n"])


def behaviour(b, faults=False):
    """(script lines, expected results) of a printed behaviour"""
    t = b["t"]
    init = t[0]
    lines, exp = [], []
    js = init["j"]
    nj = len(js)
    types_of = {i + 1: js[i]["ty"] for i in range(nj)}
    hty = {}
    for i in range(nj):
        hx = rle_hex(init["obs"]["j"][i])
        mode = "z" if js[i]["zc"] else "f" if faults else ("c" if hx else "e")
        lines.append("journal %d %s %s" % (i + 1, mode, hexarg(hx)))
        exp.append(None)
    for i in range(nj):
        lines.append("msg %d %d %d" % (i + 1, i + 1, js[i]["ty"]))
        exp.append(None)
    nh = nj
    exp[-1] = expect(init, 0)
    for s in t[1:]:
        op = s["op"]
        hid = nh + 1
        if op["o"] in CREATES:
            nh += 1
        line = op_line(op, hid, types_of)
        if op["o"] == "oneof":
            line = line.replace("@TY@", str(s["ty"]))
        if faults and s["fail"]:
            line = "?%d %s" % (s["fail"], line)
        lines.append(line)
        exp.append(expect(s, s["rc"]))
    return lines, exp


def expect(s, rc):
    return dict(rc=rc, v="".join(rle_hex(x) for x in s["v"]), j=[rle_hex(x) for x in s["obs"]["j"]],
                h=[probe_text(p) for p in s["obs"]["h"]])


def compare(exp, got):
    if exp is None:
        return None
    if exp["rc"] != got["rc"]:
        return "result: expected %s, got %s" % (exp["rc"], got["rc"])
    if exp["v"] != got["v"]:
        return "value: expected %s, got %s" % (exp["v"] or "none", got["v"] or "none")
    for i, (a, b) in enumerate(zip(exp["j"], got["j"])):
        if a != b:
            return "bytes of message %d: expected %s, got %s" % (i + 1, a, b)
    for i, a in enumerate(exp["h"]):
        b = got["h"].get(str(i + 1))
        if a != b:
            return "handle %d: expected %s, got %s" % (i + 1, a, b)
    return None


# exit codes of a driver that makes no progress
HANGS = (97, -1)


def run_driver(exe, schema, sessions, timeout=300, ends=False):
    """sessions: list of script line lists; returns list of lists of results (None where it crashed) and crash text"""
    text = []
    for k, s in enumerate(sessions):
        text.append("session %d" % k)
        text += s
        text.append("end")
    try:
        p = subprocess.run([exe, schema], input="\n".join(text) + "\n", stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           text=True, env=ASAN_ENV, timeout=timeout)
        err, rc, out = p.stderr, p.returncode, p.stdout
    except subprocess.TimeoutExpired as e:
        err, rc = "timeout after %d s" % timeout, -1
        out = e.stdout.decode() if isinstance(e.stdout, bytes) else (e.stdout or "")
    res, cur = [], None
    for line in out.split("\n"):
        if not line:
            continue
        try:
            d = json.loads(line)
        except ValueError:
            break
        if "session" in d:
            cur = []
            res.append(cur)
        elif cur is not None and (ends or "end" not in d):
            cur.append(d)
    return res, rc, err


def replay_sessions(exe, schema, items, on_bad, timeout=300):
    """items: list of (lines, exp, tag). Calls on_bad(tag, lines, step, text) for each divergence. Returns number of compared steps."""
    steps = 0
    i = 0
    crashes = 0
    # a few crashes (each costs a new process) or hangs (each costs the driver's time limit) settle the matter
    while i < len(items) and crashes < 40:
        batch = items[i:]
        res, rc, err = run_driver(exe, schema, [x[0] for x in batch], timeout)
        for k, out in enumerate(res):
            lines, exp, tag = batch[k]
            done = False
            for n, e in enumerate(exp):
                if n >= len(out):
                    msg = [l for l in err.split("\n") if "ERROR" in l or "SUMMARY" in l or "timeout" in l or "runtime error" in l or "Assertion" in l]
                    on_bad(tag, lines, n, "crash (exit %s): %s" % (rc, " ".join(msg)[:400] or err[-300:]))
                    done = True
                    break
                d = compare(e, out[n])
                steps += 1
                if d:
                    on_bad(tag, lines, n, d)
                    break
            if done:
                break
        if rc == 0:
            if len(res) != len(batch):
                raise CheckError("driver stopped early: %d of %d sessions" % (len(res), len(batch)))
            return steps
        if not res:
            raise CheckError("driver failed: exit %s %s" % (rc, err[-500:]))
        i += len(res)
        crashes += 40 if rc in HANGS else 1
    return steps
