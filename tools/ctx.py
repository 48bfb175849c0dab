"""One run of one check: counters, samples, violations, evidence."""
import json, os, sys, time, zlib
from common import *

KNOWN = os.path.join(VERIF, "known-findings.txt")


def known_findings(prop):
    """lines 'KNOWN-FINDING: property=<id> <key> | <text>' of the committed list"""
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith("KNOWN-FINDING: property=%s " % prop):
                rest = line.split(" ", 2)[2]
                key, _, text = rest.partition(" | ")
                out.append((key.strip(), text.strip()))
    return out


class Ctx:
    def __init__(self, prop, level="model_checking"):
        self.prop, self.level = prop, level
        self.tier = TIER
        self.quick = TIER != "thorough"
        self.seed = SEED
        self.t0 = time.time()
        self.states = self.transitions = self.traces = self.steps = 0
        self.samples, self.notes, self.assumptions = [], {}, []
        self.violations = []
        self.found = []
        self.parts = []
        self.known = known_findings(prop)
        self.dir = workdir("run-" + prop)
        self.exes = {}

    def n(self, quick, thorough):
        return quick if self.quick else thorough

    def base(self, salt=0):
        """reproducible number per property, seed and part"""
        return zlib.crc32(("%s/%d/%s" % (self.prop, self.seed, salt)).encode()) & 0x7fffffff

    def sub(self, name):
        return workdir("run-" + self.prop, name)

    def exe(self, name, sources, flags=ASAN, libs=ASAN, **kw):
        if name not in self.exes:
            self.exes[name] = build(self.prop + "-" + name, sources, flags, libs, **kw)
        return self.exes[name]

    def both(self, name, sources):
        """the driver without and with assertions, and (where there is a compiler for it) with memory that was never written being tracked"""
        r = [self.exe(name, sources), self.exe(name + "-assert", sources, debug=True)]
        if CLANG:
            r.append(self.exe(name + "-msan", sources, flags=MSAN, libs=MSAN, cc=CLANG))
        return r

    def sample(self, x):
        if len(self.samples) < 6:
            self.samples.append(x)

    def tlc_stats(self, name, r):
        self.states += r.distinct
        self.transitions += r.generated
        self.parts.append({"part": name, "tlc_states": r.distinct, "tlc_transitions": r.generated, "tlc_s": round(r.wall, 1)})

    def violation(self, text, replay):
        """replay: anything that serialises; written to a file named in the VIOLATION line"""
        d = os.path.join(BUILD, "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%d.json" % (self.prop, len(self.violations) + 1))
        with open(path, "w") as fp:
            json.dump({"property": self.prop, "what": text, "replay": replay}, fp, indent=1)
        self.violations.append((text, path))

    def known_finding(self, key, text, replay):
        """a failure of a class that may be recorded: reported as known if it is listed, else as a violation"""
        for k, t in self.known:
            if k == key:
                self.found.append("%s | %s" % (key, t))
                return
        self.violation("%s: %s" % (key, text), replay)

    def finish(self):
        cov = dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces,
                   samples=self.samples, observations_compared=self.steps, parts=self.parts)
        cov.update(self.notes)
        ev = dict(property=self.prop, tier="quick" if self.quick else "thorough", seed=self.seed, level=self.level,
                  coverage=cov, assumptions=self.assumptions, known_findings=self.found, wall_s=round(time.time() - self.t0, 2),
                  violations=len(self.violations))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as fp:
            json.dump(ev, fp, indent=1)
        print("%s: %d model states, %d transitions, %d traces replayed or validated, %d observations compared, %.1f s" %
              (self.prop, self.states, self.transitions, self.traces, self.steps, time.time() - self.t0))
        for k in self.found:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k))
        for text, path in self.violations[:10]:
            print("  " + text[:1500])
        for text, path in self.violations[:10]:
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
        sys.stdout.flush()
        return 1 if self.violations else 0
