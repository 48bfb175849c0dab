"""G01: the compiler plugin. Schemas and the tables they demand come from spec/SchemaGen.tla; protoc runs the plugin
built from /repo's tree, the generated code is compiled, its descriptors dumped and its functions compared with the
generic operations on the path the specification names."""
import json, os, re, shutil, struct, subprocess
from concurrent.futures import ThreadPoolExecutor
from common import *

STYLES = [("f", "f", "F"), ("Name", "name", "NAME"), ("with_under", "with_under", "WITH_UNDER"), ("UP", "up", "UP"), ("camelCase", "camelcase", "CAMELCASE"),
          ("x", "x", "X"), ("X_y_Z", "x_y_z", "X_Y_Z")]
PACKAGES = [("", "", ""), ("p.", "p_", "P_"), ("pkg.Sub_x.", "pkg_sub_x_", "PKG_SUB_X_"), ("a.b.c.", "a_b_c_", "A_B_C_")]
TAGS = list(range(1, 33)) + [63, 64, 100, 127, 128, 500, 999, 2047, 2048, 16383, 16384, 18999, 20000, 70000, 2097151, 2097152, 268435455, 536870911]
NUMBERS = "<<0, 1, 2, 3, -1, 5, 127, 128, 300, 65536, 2147483647, -2147483647 - 1, -5>>"


def esc(b):
    return '"' + "".join("\\%03o" % x for x in b) + '"'


def literals():
    i32 = [0, 1, -1, 2147483647, -2147483648, 42]
    u32 = [0, 1, 4294967295, 2147483648]
    i64 = i32 + [9223372036854775807, -9223372036854775808, 4294967296]
    u64 = u32 + [18446744073709551615, 9223372036854775808]
    L = {}
    for t, v, f in [("INT32", i32, "<i"), ("SINT32", i32, "<i"), ("SFIXED32", i32, "<i"), ("UINT32", u32, "<I"), ("FIXED32", u32, "<I"),
                    ("INT64", i64, "<q"), ("SINT64", i64, "<q"), ("SFIXED64", i64, "<q"), ("UINT64", u64, "<Q"), ("FIXED64", u64, "<Q")]:
        L[t] = [(str(x), struct.pack(f, x)) for x in v]
    L["BOOL"] = [("true", b"\1"), ("false", b"\0")]
    fl = ["0", "1", "-1.5", "0.1", "1e10", "-0.0", "3.4028235e38", "1e-40", "inf", "-inf", "nan", "16777217", "0.3333333333333333"]
    L["FLOAT"] = [(x, struct.pack("<f", float(x))) for x in fl]
    L["DOUBLE"] = [(x, struct.pack("<d", float(x))) for x in fl + ["1e300", "4.9e-324", "1.7976931348623157e308", "0.1234567890123456789"]]
    st = [b"", b"abc", b" x y ", b'"', b"\\", b"\\\"", b"a\nb\tc\r", b"??=", b"??/", b"%s %d", b"`", b"*/", b"//", b"\x011", b"\0", b"a\0b", b"\x7f", "äß€".encode(), b"$1",
          b"1234567890" * 12]
    L["STRING"] = [(esc(x), x) for x in st]
    L["BYTES"] = [(esc(x), x) for x in st + [b"\xff", b"\x80\xfe9", bytes(range(256))]]
    return L


LITS = literals()
PROTO = {t: t.lower() for t in LITS}


# ---------------------------------------------------------------- .proto text
def full(s, m):
    x = s["msgs"][m - 1]
    return (full(s, x["par"]) if x["par"] else "." + s["files"][x["f"] - 1]["pkg"]["n"]).rstrip(".") + "." + x["n"]["n"]


def efull(s, e):
    x = s["enums"][e - 1]
    return (full(s, x["par"]) if x["par"] else "." + s["files"][x["f"] - 1]["pkg"]["n"]).rstrip(".") + "." + x["n"]["n"]


def type_text(s, f):
    if f["type"] == "MESSAGE":
        return full(s, f["ref"])
    if f["type"] == "ENUM":
        return efull(s, f["ref"])
    return PROTO[f["type"]]


def field_text(s, f):
    if f["type"] == "MESSAGE" and s["msgs"][f["ref"] - 1]["map"]:
        kv = sorted([x for x in s["fields"] if x["m"] == f["ref"]], key=lambda x: x["tag"])
        return "map<%s, %s> %s = %d;" % (type_text(s, kv[0]), type_text(s, kv[1]), f["n"]["n"], f["tag"])
    opts = []
    if f["lit"]:
        opts.append("default = " + (s["enums"][f["ref"] - 1]["v"][f["lit"] - 1]["n"]["n"] if f["type"] == "ENUM" else LITS[f["type"]][f["lit"] - 1][0]))
    if f["pk"]:
        opts.append("packed = " + ("true" if f["pk"] == 1 else "false"))
    if f["dep"]:
        opts.append("deprecated = true")
    syn = s["files"][f["f"] - 1]["syn"]
    label = "" if f["label"] == "oneof" or (syn == 3 and f["label"] == "optional") else f["label"] + " "
    return "%s%s %s = %d%s;" % (label, type_text(s, f), f["n"]["n"], f["tag"], " [%s]" % ", ".join(opts) if opts else "")


def enum_text(e, ind):
    nums = [v["num"] for v in e["v"]]
    out = [ind + "enum %s {" % e["n"]["n"]]
    if len(set(nums)) < len(nums):
        out.append(ind + "  option allow_alias = true;")
    out += [ind + "  %s = %d;" % (v["n"]["n"], v["num"]) for v in e["v"]]
    return out + [ind + "}"]


def ext_text(s, f, par, ind):
    out = []
    for m in range(1, len(s["msgs"]) + 1):
        fs = [x for x in s["fields"] if x["m"] == m and x["scope"] == par and x["f"] == f]
        if par == 0:
            fs = [x for x in fs if x["scope"] == 0]
        if fs:
            out += [ind + "extend %s {" % full(s, m)] + [ind + "  " + field_text(s, x) for x in fs] + [ind + "}"]
    return out


def message_text(s, m, ind):
    x = s["msgs"][m - 1]
    out = [ind + "message %s {" % x["n"]["n"]]
    i2 = ind + "  "
    if x["dep"]:
        out.append(i2 + "option deprecated = true;")
    for e in s["enums"]:
        if e["par"] == m:
            out += enum_text(e, i2)
    own = [(i, f) for i, f in enumerate(s["fields"], 1) if f["m"] == m and f["scope"] < 0]
    done = set()
    for i, f in own:
        if f["oneof"]:
            if f["oneof"] not in done:
                done.add(f["oneof"])
                out.append(i2 + "oneof %s {" % s["oneofs"][f["oneof"] - 1]["n"]["n"])
                out += [i2 + "  " + field_text(s, g) for _, g in own if g["oneof"] == f["oneof"]]
                out.append(i2 + "}")
        else:
            out.append(i2 + field_text(s, f))
    for k, y in enumerate(s["msgs"], 1):
        if y["par"] == m and not y["map"]:
            out += message_text(s, k, i2)
    if s["files"][x["f"] - 1]["syn"] == 2:
        out.append(i2 + "extensions 1000 to 1999;")
    out += ext_text(s, x["f"], m, i2)
    return out + [ind + "}"]


def proto_text(s, f, imp):
    F = s["files"][f - 1]
    out = ['syntax = "proto%d";' % F["syn"]]
    if F["pkg"]["n"]:
        out.append("package %s;" % F["pkg"]["n"].rstrip("."))
    if F["lite"]:
        out.append("option optimize_for = LITE_RUNTIME;")
    out += ['import "%s";' % i for i in imp]
    for e in s["enums"]:
        if e["f"] == f and e["par"] == 0:
            out += enum_text(e, "")
    for m, x in enumerate(s["msgs"], 1):
        if x["f"] == f and x["par"] == 0:
            out += message_text(s, m, "")
    out += ext_text(s, f, 0, "")
    return "\n".join(out) + "\n"


# ---------------------------------------------------------------- plugin
def build_plugin(c):
    """the plugin from the working tree's sources"""
    d = c.sub("plugin")
    g = os.path.join(REPO, "src", "generator")
    srcs = sorted(f for f in os.listdir(g) if f.endswith(".cc"))
    flags = ["-std=gnu++17", "-O0", "-w", "-I" + os.path.join(REPO, "src"), "-I" + os.path.join(REPO, "include")]
    compat = "/opt/vp/compat/protobuf-compat.h"
    if os.path.exists(compat):
        flags += ["-include", compat]
    def one(f):
        o = os.path.join(d, f[:-3] + ".o")
        return f, o, sh(["g++"] + flags + ["-c", os.path.join(g, f), "-o", o])
    objs = []
    with ThreadPoolExecutor(NCPU) as ex:
        for f, o, r in ex.map(one, srcs):
            if r.returncode:
                raise CheckError("cannot compile %s:\n%s" % (f, r.stdout[-3000:]))
            objs.append(o)
    exe = os.path.join(d, "protoc-gen-protobluff")
    r = sh(["g++"] + objs + ["-o", exe, "-lprotoc", "-lprotobuf", "-lpthread"])
    if r.returncode:
        raise CheckError("cannot link the plugin:\n" + r.stdout[-3000:])
    return exe


def build_lib(c, name, cflags):
    d = c.sub(name)
    objs = []
    def one(s):
        o = os.path.join(d, os.path.basename(os.path.dirname(s)) + "_" + os.path.basename(s)[:-2] + ".o")
        return o, sh(["gcc"] + cflags + ASAN + ["-I" + os.path.join(REPO, "src"), "-I" + os.path.join(REPO, "include"), "-c", s, "-o", o])
    with ThreadPoolExecutor(NCPU) as ex:
        for o, r in ex.map(one, lib_sources()):
            if r.returncode:
                raise CheckError("cannot compile the library:\n" + r.stdout[-3000:])
            objs.append(o)
    a = os.path.join(d, "lib.a")
    need = sh(["ar", "rcs", a] + objs)
    if need.returncode:
        raise CheckError(need.stdout)
    o = os.path.join(d, "gendrv.o")
    r = sh(["gcc"] + cflags + ASAN + ["-I" + os.path.join(REPO, "include"), "-c", os.path.join(VERIF, "harness", "gendrv.c"), "-o", o])
    if r.returncode:
        raise CheckError("cannot compile gendrv.c:\n" + r.stdout[-3000:])
    return [o, a]


# ---------------------------------------------------------------- one schema
FILES = ["sub-dir/imp.v1.proto", "sub-dir/main-file.proto"]


def test_program(x):
    out = ['#undef NDEBUG', '#include "sub-dir/main-file.pb.h"', '#include "sub-dir/imp.v1.pb.h"', '#include "gendrv.h"']
    out.append("const sym_t syms[] = {")
    out += ['  { "%s", &%s_descriptor, 1 },' % (m["sym"], m["sym"]) for m in x["msgs"]]
    out += ['  { "%s", &%s_descriptor, 2 },' % (e["sym"], e["sym"]) for e in x["enums"]]
    out += ['  { "%s", &%s_descriptor, 3 },' % (o["sym"], o["sym"]) for o in x["oneofs"]]
    out.append("  { 0, 0, 0 } };")
    out.append("const const_t consts[] = {")
    out += ['  { "%s", (long long)(%s) },' % (k["c"], k["c"]) for k in x["consts"]]
    out.append("  { 0, 0 } };")
    out.append("void run(void) {")
    for a in x["acc"]:
        D = "&%s_descriptor, P(%s)" % (a["m"], ", ".join(str(t) for t in a["path"]))
        kind = a["op"].upper() + ("V" if a["hv"] and a["op"] == "put" else "")
        out.append("  %s(%s, %s%s);" % (kind, a["fn"], D, ", " + cint(a["v"]) if a["hv"] else ""))
    for a in x["enc"]:
        kind = a["op"].upper()
        out.append("  %s(%s, &%s_descriptor, %d, %s%s);" % (kind, a["fn"], a["m"], a["path"][0], '"%s"' % a["type"], ", " + cint(a["v"]) if a["hv"] else ""))
    for k in x["cases"]:
        out.append("  CASE(%s, &%s_descriptor, &%s_descriptor);" % (k["fn"], k["m"], k["o"]))
    for m in x["msgs"]:
        out.append("  CODEC(%s, &%s_descriptor);" % (m["sym"], m["sym"]))
        if not m["lite"]:
            out.append("  MSGFN(%s, &%s_descriptor);" % (m["sym"], m["sym"]))
    out.append("}")
    return "\n".join(out) + "\n"


def cint(v):
    return "(-2147483647 - 1)" if v == -2147483648 else "(%d)" % v


def norm(t, b):
    """NaN has many representations"""
    if t in ("FLOAT", "DOUBLE"):
        v = struct.unpack("<f" if t == "FLOAT" else "<d", b)[0]
        if v != v:
            return "nan"
    return b.hex()


def want_row(r):
    d = r["dflt"]
    v = "none" if d["k"] == "none" else "enum %d" % d["v"] if d["k"] == "enum" else norm(r["type"], LITS[r["type"]][d["v"] - 1][1])
    return dict(tag=r["tag"], name=r["name"], type=r["type"], label=r["label"].upper(), refer=r["refer"], packed=bool(r["packed"]), oneof=r["oneof"], dflt=v)


def got_row(r):
    v = r.pop("value")
    if v.startswith("hex "):
        v = norm(r["type"], bytes.fromhex(v[4:]))
    r["dflt"] = v
    r["packed"] = bool(r["packed"])
    return r


def compare(x, out):
    """differences between the expectation and the dumped tables"""
    bad = []
    D = {(d["k"], d["sym"]): d for d in out if "k" in d}
    for m in x["msgs"]:
        d = D[("m", m["sym"])]
        own = [got_row(r) for r in d["own"]]
        want = [want_row(r) for r in m["own"]]
        if own != want:
            w = [(a, b) for a, b in zip(want, own) if a != b]
            bad.append("%s_descriptor: declared %s, generated %s" % (m["sym"], w[0] if w else len(want), "" if w else len(own)))
        ext = sorted([got_row(r) for r in d["ext"]], key=lambda r: r["tag"])
        want = sorted([want_row(r) for r in m["ext"]], key=lambda r: r["tag"])
        if ext != want:
            w = [(a, b) for a, b in zip(want, ext) if a != b]
            bad.append("extensions of %s_descriptor: declared %s, registered %s" % (m["sym"], w[0] if w else [r["tag"] for r in want], "" if w else [r["tag"] for r in ext]))
        if not d["sorted"]:
            bad.append("%s_descriptor: an extension is not in ascending order" % m["sym"])
    for e in x["enums"]:
        d = D[("e", e["sym"])]
        key = lambda v: (v["num"], v["name"])
        if sorted(d["v"], key=key) != sorted(e["v"], key=key) or [v["num"] for v in d["v"]] != sorted(v["num"] for v in e["v"]):
            bad.append("%s_descriptor: declared %s, generated %s" % (e["sym"], e["v"], d["v"]))
    for o in x["oneofs"]:
        d = D[("o", o["sym"])]
        if d["m"] != o["m"] or d["x"] != o["x"]:
            bad.append("%s_descriptor: declared members at %s of %s, generated %s of %s" % (o["sym"], o["x"], o["m"], d["x"], d["m"]))
    for k in x["consts"]:
        if D[("c", k["c"])]["v"] != k["v"]:
            bad.append("constant %s is %d instead of %d" % (k["c"], D[("c", k["c"])]["v"], k["v"]))
    for d in out:
        if "fail" in d:
            bad.append("%s: %s" % (d["fail"], d["why"]))
    return bad


HUNG = []


def one(args):
    c, k, s, plugin, lib = args
    if len(HUNG) > 3:
        return k, ["", ""], [], None, 0
    d = os.path.join(c.dir, "schemas", str(k))
    os.makedirs(os.path.join(d, "sub-dir"))
    texts = [proto_text(s, 1, []), proto_text(s, 2, [FILES[0]])]
    for f, t in zip(FILES, texts):
        open(os.path.join(d, f), "w").write(t)
    fails = []
    r = sh(["protoc", "-I", d, "--descriptor_set_out=" + os.path.join(d, "set"), FILES[0], FILES[1]], cwd=d)
    if r.returncode:
        return k, texts, None, "protoc rejects the schema: " + r.stdout[-600:], 0
    r = sh(["timeout", "-k", "5", "60", "protoc", "-I", d, "--plugin=protoc-gen-protobluff=" + plugin, "--protobluff_out=" + d, FILES[0], FILES[1]], cwd=d)
    if r.returncode:
        HUNG.extend([k] * (r.returncode == 124))
        return k, texts, ["the plugin fails%s: %s" % (" to end" if r.returncode == 124 else "", " ".join(r.stdout.split())[-400:])], None, 0
    open(os.path.join(d, "test.c"), "w").write(test_program(s["x"]))
    srcs = [f.replace(".proto", ".pb.c") for f in FILES]
    objs = []
    for i, f in enumerate(srcs + ["test.c"]):
        o = os.path.join(d, "o%d.o" % i)
        # a user's translation unit: plain C99, assertions on
        r = sh(["gcc", "-std=c99", "-O0", "-w", "-I" + d, "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(VERIF, "harness"), "-c", os.path.join(d, f), "-o", o], cwd=d)
        if r.returncode:
            e = [l for l in r.stdout.split("\n") if "error" in l] or [r.stdout[-300:]]
            return k, texts, ["the generated code does not compile: " + " | ".join(e)[:500]], None, 0
        objs.append(o)
    exe = os.path.join(d, "test")
    r = sh(["gcc"] + ASAN + objs + lib + ["-o", exe])
    if r.returncode:
        return k, texts, ["the generated code does not link: " + r.stdout[-400:]], None, 0
    p = subprocess.run(["timeout", "-k", "5", "60", exe], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=ASAN_ENV, timeout=300, errors="replace")
    out = []
    for line in p.stdout.split("\n"):
        if line:
            try:
                out.append(json.loads(line))
            except ValueError:
                break
    if p.returncode:
        HUNG.extend([k] * (p.returncode == 124))
        m = [l for l in p.stderr.split("\n") if "ERROR" in l or "SUMMARY" in l or "ssert" in l]
        last = [o["run"] for o in out if "run" in o][-1:]
        fails.append("the generated code fails (exit %d) in %s: %s" % (p.returncode, last, " ".join(m)[:400] or p.stderr[-300:]))
    else:
        fails = compare(s["x"], out)
    shutil.rmtree(d)
    return k, texts, fails, None, sum(o.get("checks", 0) for o in out)


def G01(c):
    plugin = build_plugin(c)
    libs = [build_lib(c, "lib", CFLAGS), build_lib(c, "lib-assert", DEBUG_CFLAGS)]
    os.makedirs(os.path.join(c.dir, "schemas"))
    def part(name, n, length, deep=False):
        d = c.sub(name)
        lo = c.base(name) % 20000
        rec = lambda t: "[n |-> %s, l |-> %s, u |-> %s]" % tuple(tla(y) for y in t)
        defs = dict(Seeds="%d..%d" % (lo, lo + n - 1), Length=tla(length), Deep=tla(deep), Styles="<<%s>>" % ", ".join(map(rec, STYLES)),
                    Packages="<<%s>>" % ", ".join(map(rec, PACKAGES)), Tags=tla(TAGS), Numbers=NUMBERS, Types=tla(sorted(LITS)),
                    Lits="[" + ", ".join("%s |-> %d" % (t, len(LITS[t])) for t in sorted(LITS)) + "]", Strs=tla({"STRING", "BYTES"}))
        write_mc(d, "MC", "SchemaGen", defs, ["SPECIFICATION Spec", "INVARIANT Holds", "CHECK_DEADLOCK FALSE"])
        r = tlc(d, "MC", timeout=1500, heap="8g")
        need_ok(r, name)
        c.tlc_stats(name, r)
        L = [json.loads(x) for x in r.printed]
        if len(L) != n:
            raise CheckError("%s: %d schemas for %d seeds" % (name, len(L), n))
        bad, rejected = [], []
        with ThreadPoolExecutor(NCPU) as ex:
            for k, texts, fails, rej, steps in ex.map(one, [(c, "%s-%d" % (name, i), s, plugin, libs[i % 2]) for i, s in enumerate(L)]):
                c.steps += steps
                c.traces += 1
                if rej:
                    rejected.append((k, rej))
                for f in fails or []:
                    bad.append((len(texts[0]) + len(texts[1]), f, texts))
        if rejected:
            raise CheckError("%s: %s" % rejected[0])
        bad.sort(key=lambda b: b[0])
        seen = set()
        for _, f, texts in bad:
            key = re.sub(r"[A-Za-z_.]*\d+\w*", "#", f)[:60]
            if key in seen or len(seen) >= 6:
                continue
            seen.add(key)
            c.violation("%s: %s" % (name, f), dict(kind="schema", files=dict(zip(FILES, texts)), diverges=f))
        c.sample({"part": name, "schema": proto_text(L[0], 2, [FILES[0]])[:600]})
    part("small", c.n(60, 600), 12)
    part("large", c.n(24, 300), 45)
    part("nested", c.n(32, 400), 22, True)


PROPS = dict(G01=G01)
