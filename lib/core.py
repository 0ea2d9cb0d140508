"""Building drivers from /repo's working tree, running scripts in them, running TLC, reporting."""
import concurrent.futures as cf
import glob
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
import zlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
NCPU = min(8, os.cpu_count() or 4)
T0 = time.time()


class Workdir:
    """A scratch directory, removed at the end."""
    def __enter__(self):
        self.path = tempfile.mkdtemp(prefix="onexv_")
        return self.path

    def __exit__(self, *a):
        shutil.rmtree(self.path, ignore_errors=True)


class CheckError(Exception):
    pass


def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, file=sys.stderr, flush=True)


# ---------------------------------------------------------------- building

def _compile(args):
    r = subprocess.run(args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode, r.stdout


def build(work, driver, single=False, cli=False, asan=True):
    """Compiles the library (and the command line) of /repo's working tree with a driver; returns the program's path."""
    tag = "%s_%s_%s" % (driver or "cli", "s" if single else "d", "a" if asan else "n")
    out = os.path.join(work, "build_" + tag)
    os.makedirs(out, exist_ok=True)
    exe = os.path.join(out, "prog")
    if os.path.exists(exe):
        return exe
    with open(os.path.join(out, "config.hpp"), "w") as f:
        f.write("#define SINGLE_PRECISION\n" if single else "/* #undef SINGLE_PRECISION */\n")
    srcs = sorted(glob.glob(os.path.join(REPO, "src", "**", "*.cpp"), recursive=True))
    incs = ["-I", out, "-I", os.path.join(REPO, "src"), "-I", os.path.join(VERIF, "drivers")]
    libs = []
    if cli:
        srcs += sorted(glob.glob(os.path.join(REPO, "cli", "**", "*.cpp"), recursive=True))
        incs += ["-I", os.path.join(REPO, "cli")]
        libs = ["-lreadline"]
    if driver:
        srcs.append(os.path.join(VERIF, "drivers", driver + ".cpp"))
    flags = ["-std=c++11", "-O1", "-g1", "-w"] + (["-fsanitize=address", "-fno-omit-frame-pointer"] if asan else [])
    jobs, objs = [], []
    for i, s in enumerate(srcs):
        o = os.path.join(out, "%d.o" % i)
        objs.append(o)
        jobs.append(["g++"] + flags + incs + ["-c", s, "-o", o])
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for (rc, txt), job in zip(ex.map(_compile, jobs), jobs):
            if rc != 0:
                raise CheckError("compilation failed: %s\n%s" % (" ".join(job), txt[:3000]))
    rc, txt = _compile(["g++"] + flags + objs + ["-o", exe] + libs)
    if rc != 0:
        raise CheckError("link failed: " + txt[:3000])
    return exe


ENV = dict(os.environ)
ENV["ASAN_OPTIONS"] = "alloc_dealloc_mismatch=0:detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=0:max_allocation_size_mb=4096"
ENV["LC_ALL"] = "C"


# Memory that was given back is given out again at once, with what it held: wrong use of it is not seen, but what remembers
# something by its address is misled
REUSE = dict(ENV, ASAN_OPTIONS=ENV["ASAN_OPTIONS"] + ":quarantine_size_mb=0:thread_local_quarantine_size_kb=0:max_malloc_fill_size=0")


def divide(traces, of=lambda t: t.tid):
    """Shares of the traces to run in parallel: [(reuse memory, traces)].  How a trace is run depends on its name alone."""
    n = max(1, NCPU // 2)
    out = []
    for reuse in (False, True):
        ts = [t for t in traces if zlib.crc32(of(t).encode()) % 2 == reuse]
        out += [(reuse, ts[i::n]) for i in range(n) if ts[i::n]]
    return out


def run_driver(exe, script, work, name, seconds=20, cwd=None, reuse=False):
    """Runs one script (text); returns the list of output lines as JSON values."""
    path = os.path.join(work, name + ".script")
    with open(path, "w") as f:
        f.write(script)
    with open(os.path.join(work, name + ".err"), "wb") as err:
        r = subprocess.run([exe, path, str(seconds)], stdout=subprocess.PIPE, stderr=err, env=REUSE if reuse else ENV, cwd=cwd or work)
    if r.returncode != 0:
        raise CheckError("driver failed (%d) on %s" % (r.returncode, path))
    return [json.loads(x) for x in r.stdout.decode("latin-1").split("\n") if x]


# ---------------------------------------------------------------- TLC

def _tlc_jar():
    for p in ["/opt/veriftools/tla/tla2tools.jar"]:
        if os.path.exists(p):
            return p
    raise CheckError("no TLC")


def tlc_cmd(extra_java=()):
    jars = sorted(glob.glob("/opt/veriftools/tla/*.jar"))
    return ["java", "-XX:+UseParallelGC", "-Xmx12g", "-Xss64m"] + list(extra_java) + ["-cp", ":".join(jars), "tlc2.TLC"]


class TLCResult:
    def __init__(self, rc, out):
        self.rc, self.out = rc, out
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        self.generated = int(m[-1][0].replace(",", "")) if m else 0
        self.distinct = int(m[-1][1].replace(",", "")) if m else 0
        self.invariant = None
        m = re.search(r"Invariant (\w+) is violated", out) or re.search(r"Action property (\w+) is violated", out)
        if m:
            self.invariant = m.group(1)
        self.clean = "No error has been found" in out or ("The number of states generated" in out and "Error:" not in out)
        m = re.search(r"The number of states generated: (\d+)", out)
        if m and not self.generated:        # simulation
            self.generated = self.distinct = int(m.group(1))
        self.coverage = {}

    def states(self):
        """Variable assignments of the error trace, as text."""
        return re.findall(r"^State \d+:.*?\n((?:.+\n)+)", self.out, re.M)


def tlc(module, cfg, work, env=None, workers=NCPU, extra=(), timeout=800, java=()):
    """cfg: text of the configuration.  Returns a TLCResult; anything but success or a violated invariant is an error."""
    meta = tempfile.mkdtemp(prefix="tlc_", dir=work)
    cfgp = os.path.join(meta, module + ".cfg")
    with open(cfgp, "w") as f:
        f.write(cfg)
    e = dict(os.environ)
    e.update(env or {})
    cmd = tlc_cmd(tuple(java) + ("-Djava.io.tmpdir=" + meta,)) + ["-workers", str(workers), "-metadir", os.path.join(meta, "m"), "-noGenerateSpecTE", "-nowarning",
           "-config", cfgp] + list(extra) + [os.path.join(SPEC, module + ".tla")]
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e, cwd=SPEC, timeout=timeout)
    except subprocess.TimeoutExpired as x:
        raise CheckError("TLC timed out on %s" % module)
    out = r.stdout.decode("utf-8", "replace")
    res = TLCResult(r.returncode, out)
    shutil.rmtree(meta, ignore_errors=True)
    if not res.clean and res.invariant is None:
        raise CheckError("TLC error on %s:\n%s" % (module, "\n".join(x for x in out.split("\n") if not x.startswith(("Parsing", "Semantic", "Linting")))[-3500:]))
    return res


# ---------------------------------------------------------------- reporting

class Report:
    """What a check covered; writes the evidence file and the verdict."""
    def __init__(self, prop, level="model_checking"):
        self.prop, self.level = prop, level
        self.states = self.transitions = self.traces = 0
        self.extra = {}
        self.samples = []
        self.assumptions = []
        self.violations = []

    def model(self, name, res):
        self.states += res.distinct
        self.transitions += res.generated
        self.extra.setdefault("models", {})[name] = {"distinct_states": res.distinct, "generated": res.generated}

    def conformance(self, name, ntraces, nevents, res, **kw):
        self.traces += ntraces
        d = {"traces": ntraces, "events": nevents, "states_checked": res.distinct}
        d.update(kw)
        self.states += res.distinct
        self.transitions += res.generated
        self.extra.setdefault("conformance", {})[name] = d

    def sample(self, s):
        if len(self.samples) < 6:
            self.samples.append(s)

    def violation(self, what, replay):
        self.violations.append((what, replay))

    def finish(self):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        cov = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
               "samples": self.samples or ["(none)"]}
        cov.update(self.extra)
        ev = {"property": self.prop, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED,
              "level": self.level, "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - T0, 2), "violations": len(self.violations)}
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for what, replay in self.violations:
            print("property %s: %s" % (self.prop, what))
            print("VIOLATION property=%s replay=%s" % (self.prop, replay))
        sys.stdout.flush()
        return 1 if self.violations else 0


def save_replay(prop, name, obj):
    d = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s_%s.json" % (prop, name))
    with open(p, "w") as f:
        json.dump(obj, f, indent=1)
    return p


def pmap(f, items, n=NCPU):
    with cf.ThreadPoolExecutor(n) as ex:
        return list(ex.map(f, items))
