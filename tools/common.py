"""Shared machinery: building the drivers from /repo, running TLC, running drivers."""
import hashlib, json, os, re, subprocess, sys, threading, time, shutil
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
NCPU = os.cpu_count() or 4


class CheckError(Exception):
    """The check itself could not give an answer."""


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def workdir(*parts):
    d = os.path.join(BUILD, *parts)
    if os.path.isdir(d):
        shutil.rmtree(d)
    os.makedirs(d)
    return d


# ---------------------------------------------------------------- building
CFLAGS = ["-std=gnu99", "-O1", "-g", "-DNDEBUG", "-w", "-fno-omit-frame-pointer"]
DEBUG_CFLAGS = [f for f in CFLAGS if f != "-DNDEBUG"]      # the library's assertions are part of what must hold


def lib_sources(parts=("core", "message", "util")):
    out = []
    for p in parts:
        d = os.path.join(REPO, "src", p)
        out += [os.path.join(d, f) for f in sorted(os.listdir(d)) if f.endswith(".c")]
    return out


def build(name, sources, flags=(), libs=(), parts=("core", "message", "util"), cc="gcc", debug=False):
    """Compile the library sources of /repo's working tree with a driver of ours."""
    d = workdir("bin-" + name)
    src = lib_sources(parts) + [os.path.join(VERIF, "harness", s) for s in sources]
    inc = ["-I" + os.path.join(REPO, "src"), "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(VERIF, "harness")]
    procs, objs = [], []
    for i, s in enumerate(src):
        o = os.path.join(d, "%02d_%s.o" % (i, os.path.basename(s)[:-2]))
        objs.append(o)
        procs.append((s, subprocess.Popen([cc] + (DEBUG_CFLAGS if debug else CFLAGS) + list(flags) + inc + ["-c", s, "-o", o],
                                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
        if len(procs) % (2 * NCPU) == 0:
            for _, p in procs:
                p.wait()
    for s, p in procs:
        out, _ = p.communicate()
        if p.returncode:
            raise CheckError("cannot compile %s:\n%s" % (s, out))
    exe = os.path.join(d, name)
    r = sh([cc] + list(flags) + objs + ["-o", exe] + list(libs))
    if r.returncode:
        raise CheckError("cannot link %s:\n%s" % (name, r.stdout))
    return exe


ASAN = ["-fsanitize=address"]
CLANG = next((c for c in ("/usr/bin/clang", "/usr/bin/clang-18", shutil.which("clang")) if c and os.path.exists(c)), None)
MSAN = ["-fsanitize=memory", "-fPIE", "-pie"]
ASAN_ENV = dict(os.environ, MSAN_OPTIONS="exitcode=97:allocator_may_return_null=1", ASAN_OPTIONS="abort_on_error=0:exitcode=99:detect_leaks=0:allocator_may_return_null=1",
                UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1:exitcode=98")

# ---------------------------------------------------------------- TLC
TLC_JAR = "/opt/veriftools/tla/tla2tools.jar"
JARS = ":".join([TLC_JAR] + [os.path.join("/opt/veriftools/tla", f) for f in sorted(os.listdir("/opt/veriftools/tla"))
                             if f.endswith(".jar") and f != "tla2tools.jar"])


class TlcResult:
    pass


def tlc(d, module, workers=NCPU, timeout=600, heap="6g", extra=(), on_line=None, deque=False):
    """Run TLC on module in directory d (specs are copied there); returns statistics and printed lines."""
    for f in os.listdir(os.path.join(VERIF, "spec")):
        if f.endswith(".tla") and not os.path.exists(os.path.join(d, f)):
            shutil.copy(os.path.join(VERIF, "spec", f), d)
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss16m", "-cp", JARS]
    if deque:
        cmd += ["-Dtlc2.tool.queue.IStateQueue=StateDeque"]
    cmd += ["tlc2.TLC", "-workers", str(workers), "-lncheck", "final", "-metadir", os.path.join(d, "states-" + module),
            "-config", module + ".cfg"] + list(extra) + [module]
    t0 = time.time()
    p = subprocess.Popen(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, bufsize=1 << 20)
    timer = threading.Timer(timeout, p.kill)
    timer.start()
    r = TlcResult()
    r.lines, r.printed = [], []
    with open(os.path.join(d, module + ".out"), "w") as fp:
        for line in p.stdout:
            if line.startswith('"@@'):
                s = json.loads(line)[2:]
                if on_line:
                    on_line(s)
                else:
                    r.printed.append(s)
            else:
                fp.write(line)
                r.lines.append(line)
    p.wait()
    timer.cancel()
    r.rc, r.wall = p.returncode, time.time() - t0
    text = "".join(r.lines)
    r.text = text
    m = re.findall(r"([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct states found", text)
    r.generated, r.distinct = (int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))) if m else (0, 0)
    r.violated = re.findall(r"(?:Invariant|Temporal property|Action property) (\S+) (?:is|was) violated", text)
    r.ok = r.rc == 0 and "No error has been found" in text
    shutil.rmtree(os.path.join(d, "states-" + module), ignore_errors=True)
    return r


def need_ok(r, what):
    if not r.ok:
        raise CheckError("TLC failed on %s (exit %s):\n%s" % (what, r.rc, r.text[-4000:]))


# ---------------------------------------------------------------- TLA+ text
def tla(x):
    if isinstance(x, bool):
        return "TRUE" if x else "FALSE"
    if isinstance(x, int):
        return str(x)
    if isinstance(x, str):
        return json.dumps(x)
    if isinstance(x, dict):
        return "[" + ", ".join("%s |-> %s" % (k, tla(v)) for k, v in x.items()) + "]"
    if isinstance(x, (set, frozenset)):
        return "{" + ", ".join(tla(v) for v in sorted(x)) + "}"
    return "<<" + ", ".join(tla(v) for v in x) + ">>"


def write_mc(d, name, extends, defs, cfg_lines, body=""):
    with open(os.path.join(d, name + ".tla"), "w") as fp:
        fp.write("---- MODULE %s ----\nEXTENDS %s\n" % (name, extends))
        for k, v in defs.items():
            fp.write("MC_%s == %s\n" % (k, v))
        fp.write(body + "\n====\n")
    with open(os.path.join(d, name + ".cfg"), "w") as fp:
        if defs:
            fp.write("CONSTANTS\n" + "".join("  %s <- MC_%s\n" % (k, k) for k in defs))
        fp.write("\n".join(cfg_lines) + "\n")


# ---------------------------------------------------------------- rle
def rle_hex(r):
    return "".join(("%02x" % b) * n for b, n in r)


def hexarg(h):
    return h if h else "-"
