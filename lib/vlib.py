"""Shared machinery of the checks: build /repo's sources, run TLC, validate traces, write evidence.

Outcome discipline: exit 0 (held), exit 1 + VIOLATION line (broken), anything else is an error of the check
(raised here as CheckError and turned into exit 3 by check.py)."""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CACHE = os.path.join(VERIF, ".build")
SPECS = os.path.join(VERIF, "specs")
HARNESS = os.path.join(VERIF, "harness")
CXX = "/usr/bin/clang++-14"
CXXFLAGS = ["-nostdinc++", "-cxx-isystem", "/usr/include/c++/12", "-cxx-isystem",
            "/usr/include/x86_64-linux-gnu/c++/12", "-std=c++20", "-fPIC", "-fwrapv", "-I/usr/include/eigen3", "-w"]
LIBS = ["-lglog", "-lfmt", "-lprotobuf", "-lm", "-lstdc++", "-luuid", "-pthread"]
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class CheckError(Exception):
    """The check itself failed (build, TLC, harness): no verdict."""


class Violation(Exception):
    """Code under test broke the property."""

    def __init__(self, what, files=()):
        super().__init__(what)
        self.what = what
        self.files = list(files)


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()


# ---------------------------------------------------------------------------------------------------- building
_file_hash = {}


def fhash(path):
    try:
        st = os.stat(path)
    except OSError:
        return "missing"
    key = (path, st.st_mtime_ns, st.st_size)
    if key not in _file_hash:
        with open(path, "rb") as f:
            _file_hash[key] = hashlib.sha256(f.read()).hexdigest()
    return _file_hash[key]


def gen_protos():
    """protoc over every .proto of the working tree, outside /repo."""
    protos = sorted(os.path.relpath(p, REPO) for p in glob.glob(REPO + "/resim/**/*.proto", recursive=True))
    key = sha(*[p + fhash(os.path.join(REPO, p)) for p in protos])[:24]
    gen = os.path.join(CACHE, "gen-" + key)
    if not os.path.exists(gen + "/.ok"):
        shutil.rmtree(gen, ignore_errors=True)
        os.makedirs(gen)
        r = subprocess.run(["protoc", "-I.", "--cpp_out=" + gen] + protos, cwd=REPO, capture_output=True, text=True)
        if r.returncode:
            raise CheckError("protoc failed: " + r.stderr[:2000])
        open(gen + "/.ok", "w").close()
    return gen


def compile_one(src, flags, cwd):
    """Compile src -> cached object; the cache key covers the contents of every file the compiler read."""
    base = os.path.join(CACHE, "obj", sha(src, *flags)[:32])
    os.makedirs(os.path.dirname(base), exist_ok=True)
    meta, obj = base + ".json", base + ".o"
    if os.path.exists(meta) and os.path.exists(obj):
        try:
            deps = json.load(open(meta))
            if all(fhash(d) == h for d, h in deps.items()):
                return obj
        except ValueError:
            pass
    tmp = base + ".%d.tmp.o" % os.getpid()
    dep = base + ".%d.d" % os.getpid()
    r = subprocess.run([CXX] + flags + ["-MD", "-MF", dep, "-c", src, "-o", tmp], cwd=cwd, capture_output=True, text=True)
    if r.returncode:
        for f in (tmp, dep):
            if os.path.exists(f):
                os.remove(f)
        raise CheckError("compiling %s failed:\n%s" % (src, r.stderr[-4000:]))
    txt = open(dep).read().replace("\\\n", " ")
    deps = [d for d in txt.split(":", 1)[1].split()]
    deps = [os.path.normpath(os.path.join(cwd, d)) for d in deps]
    os.replace(tmp, obj)
    os.remove(dep)
    json.dump({d: fhash(d) for d in deps}, open(meta, "w"))
    return obj


def compile_maybe(src, flags, cwd):
    try:
        return compile_one(src, flags, cwd)
    except CheckError:
        return None


TESTISH = re.compile(r"(_test|_tests|_test_helpers?|test_helpers|_benchmark|_main)\.cc$")


def repo_sources(dirs):
    out = []
    for d in dirs:
        for p in sorted(glob.glob(os.path.join(REPO, "resim", d, "*.cc"))):
            if not TESTISH.search(p):
                out.append(p)
    return out


#: directories of library code (the others are tried too if these do not link)
ALL_DIRS = ["assert", "utils", "utils/proto", "math", "math/proto", "time", "time/proto", "transforms",
            "transforms/proto", "curves", "curves/proto", "actor/state", "actor/state/proto"]
VIS_DIRS = ["visualization/proto", "visualization", "visualization/client", "auth"]


def build(name, harness_srcs, dirs, opt="-O0", extra=(), protos=False, ldextra=(), exclude=(), hooked=()):
    """Build harness executable from /repo's current working tree; returns its path.  Sources in the hooked directories are
    compiled with calls at every memory access (defined in harness/sched.hh)."""
    t0 = time.time()
    os.makedirs(CACHE, exist_ok=True)
    # -O0 is how the repository itself is built: it relies on implicit template instantiations in .cc files staying
    # visible to other translation units
    flags = list(CXXFLAGS) + [opt] + list(extra) + ["-I" + REPO]
    gen = None
    if protos:
        gen = gen_protos()
        flags += ["-I" + gen]

    def attempt(dirs, extra_dirs=()):
        jobs = [(s, flags + ["-O1", "-I" + HARNESS], REPO) for s in [os.path.join(HARNESS, h) for h in harness_srcs]]
        hook = {os.path.join(REPO, "resim", d) for d in hooked}
        jobs += [(s, flags + (["-fsanitize=thread"] if os.path.dirname(s) in hook else []), REPO)
                 for s in repo_sources(dirs) if os.path.basename(s) not in exclude]
        if protos:
            # generated code does not need the harness defines
            pf = list(CXXFLAGS) + ["-O0", "-I" + gen]
            jobs += [(s, pf, gen) for s in sorted(glob.glob(gen + "/resim/**/*.pb.cc", recursive=True))]
        with cf.ThreadPoolExecutor(8) as ex:
            objs = list(ex.map(lambda j: compile_one(*j), jobs))
            # only tried when the usual directories do not link; what does not compile here is not needed
            objs += [o for o in ex.map(lambda s: compile_maybe(s, flags, REPO), repo_sources(extra_dirs)) if o]
        nh = len(harness_srcs)
        exe = os.path.join(CACHE, "bin", name + "-" + sha(*[o + fhash(o) for o in objs], *ldextra)[:16])
        if os.path.exists(exe):
            return exe
        os.makedirs(os.path.dirname(exe), exist_ok=True)
        for old in glob.glob(os.path.join(CACHE, "bin", name + "-*")):
            os.remove(old)
        ar = exe + ".a"
        if os.path.exists(ar):
            os.remove(ar)
        if objs[nh:]:
            r = subprocess.run(["ar", "rcs", ar] + objs[nh:], capture_output=True, text=True)
            if r.returncode:
                raise CheckError("ar: " + r.stderr)
        r = subprocess.run([CXX] + objs[:nh] + ([ar] if objs[nh:] else []) + ["-o", exe] + list(ldextra) + LIBS,
                           capture_output=True, text=True)
        if r.returncode:
            raise CheckError("link failed:\n" + r.stderr[-4000:])
        return exe

    try:
        exe = attempt(dirs)
    except CheckError as e:
        if "link failed" not in str(e):
            raise
        more = sorted({os.path.relpath(os.path.dirname(p), os.path.join(REPO, "resim"))
                       for p in glob.glob(REPO + "/resim/**/*.cc", recursive=True)} - set(dirs))
        more = [d for d in more if not re.search(r"(^|/)(examples?|testing|tests?|benchmarks?)(/|$)", d)]
        exe = attempt(dirs, more)
    log("[build] %s in %.1fs" % (name, time.time() - t0))
    return exe


# ---------------------------------------------------------------------------------------------------- TLC
class TLCResult:
    def __init__(self, rc, out, wall):
        self.rc, self.out, self.wall = rc, out, wall
        m = re.findall(r"(\d[\d,]*) states generated, (\d[\d,]*) distinct states found", out)
        self.generated = int(m[-1][0].replace(",", "")) if m else 0
        self.distinct = int(m[-1][1].replace(",", "")) if m else 0
        m = re.search(r"depth of the complete state graph search is (\d+)", out)
        self.depth = int(m.group(1)) if m else 0


def tlc(module, cfg, workers=8, env=None, timeout=800, simulate=None, xmx="6g", extra=()):
    """Run TLC on specs/<module>.tla with config text or file name cfg."""
    work = tempfile.mkdtemp(prefix="tlc-", dir=scratch())
    cfgpath = os.path.join(work, "run.cfg")
    text = cfg if "\n" in cfg else open(os.path.join(SPECS, cfg)).read()
    open(cfgpath, "w").write(text)
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + xmx, "-Xss64m", "-DTLA-Library=" + SPECS, "-Djava.io.tmpdir=" + work, "-cp", TLA_CP, "tlc2.TLC",
           "-config", cfgpath, "-workers", str(workers), "-metadir", os.path.join(work, "meta"), "-noGenerateSpecTE"]
    if simulate:
        cmd += ["-simulate", simulate]
    cmd += list(extra) + [os.path.join(SPECS, module + ".tla")]
    e = dict(os.environ)
    e.update(env or {})
    t0 = time.time()
    try:
        p = subprocess.run(cmd, cwd=work, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           timeout=timeout, errors="replace")
    except subprocess.TimeoutExpired:
        raise CheckError("TLC timed out on %s after %ss" % (module, timeout))
    finally:
        shutil.rmtree(os.path.join(work, "meta"), ignore_errors=True)
    return TLCResult(p.returncode, p.stdout, time.time() - t0)


_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        base = os.path.join(CACHE, "tmp")
        os.makedirs(base, exist_ok=True)
        _scratch = tempfile.mkdtemp(prefix="run-", dir=base)
    return _scratch


def cleanup():
    if _scratch:
        shutil.rmtree(_scratch, ignore_errors=True)


def design(module, cfg, expect_min=2, **kw):
    """Exhaustive model checking of a design module.  The design does not depend on /repo, so any failure here is an
    error of the check, not a violation."""
    r = tlc(module, cfg, **kw)
    if r.rc != 0 or "Model checking completed. No error has been found" not in r.out:
        raise CheckError("design model %s failed:\n%s" % (module, r.out[-3000:]))
    if r.distinct < expect_min:
        raise CheckError("design model %s is vacuous (%d states)" % (module, r.distinct))
    log("[design] %s: %d states, %d distinct, depth %d, %.1fs" % (module, r.generated, r.distinct, r.depth, r.wall))
    return r


def prove(module, inv, init=None, length=0, timeout=600):
    """Symbolic proof with Apalache: inv holds in all states reached from init in length steps (length 0: in all states of
    init; length 1 from an inductive invariant: in every step of every history).  As with design, a failure is an error of
    the check."""
    work = tempfile.mkdtemp(prefix="apa-", dir=scratch())
    for f in os.listdir(SPECS):
        if f.endswith(".tla"):
            shutil.copy(os.path.join(SPECS, f), work)
    cmd = ["apalache-mc", "check", "--out-dir=" + os.path.join(work, "out"), "--no-deadlock", "--length=%d" % length, "--inv=" + inv]
    cmd += ["--init=" + init] if init else []
    e = dict(os.environ, JVM_ARGS="-Xmx4g -Djava.io.tmpdir=" + work, HOME=work)
    t0 = time.time()
    try:
        p = subprocess.run(cmd + [module + ".tla"], cwd=work, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           timeout=timeout, errors="replace")
    except subprocess.TimeoutExpired:
        raise CheckError("Apalache timed out on %s" % module)
    if p.returncode != 0 or "EXITCODE: OK" not in p.stdout:
        raise CheckError("proof of %s!%s failed:\n%s" % (module, inv, p.stdout[-3000:]))
    log("[prove] %s!%s from %s, %d step(s): %.1fs" % (module, inv, init or "Init", length, time.time() - t0))


REJECT = [(11, "Deadlock reached"), (12, "Invariant"), (13, "property"), (12, "is violated")]


def rejected(r):
    """Deadlock or broken invariant; also an event whose values lie outside the domain of the specification, which TLC
    reports as an evaluation error (exit codes 75 and 76) together with the trace position reached."""
    if r.rc in (75, 76) and "The behavior up to this point is" in r.out and re.search(r"/\\ l = \d+", r.out):
        return True
    return ("Deadlock reached" in r.out or re.search(r"Error: Invariant \S+ is violated", r.out) is not None
            or re.search(r"Action property .* is violated", r.out) is not None)


def last_state(out):
    """The last printed state block of a TLC error trace."""
    blocks = re.split(r"\nState \d+: ", out)
    return blocks[-1][:3000] if len(blocks) > 1 else out[-3000:]


def mend(path):
    """Number of events.  Where the code under test has ended its process (or scribbled over its memory) in the middle
    of a line, the line becomes the event "Garbled", which no specification allows."""
    bad = set()
    n = 0
    with open(path, "rb") as f:
        for line in f:
            try:
                if not isinstance(json.loads(line).get("ev"), str):
                    bad.add(n)
            except (ValueError, AttributeError):
                bad.add(n)
            n += 1
    if bad:
        lines = open(path, "rb").read().split(b"\n")
        for b in bad:
            lines[b] = b'{"ev":"Garbled"}'
        with open(path, "wb") as f:
            f.write(b"\n".join(l for l in lines if l) + b"\n")
    return n


CHUNK = 120000


def pieces(path, limit):
    """The trace in files of at most about limit events each; episodes stay whole."""
    out, f, k = [], None, 0
    with open(path, "rb") as src:
        for line in src:
            if f is None or (k >= limit and b'"ev":"Begin"' in line[:40]):
                if f:
                    f.close()
                out.append("%s.%d" % (path, len(out)))
                f, k = open(out[-1], "wb"), 0
            f.write(line)
            k += 1
    if f:
        f.close()
    return out


def validate(module, trace_path, **kw):
    """Validate an NDJSON trace file against specs/<module>.tla; long ones piece by piece (episodes are independent)."""
    with open(trace_path, "rb") as f:
        n = sum(1 for _ in f)
    if n <= CHUNK * 5 // 4:
        return validate_one(module, trace_path, **kw)
    mend(trace_path)
    parts = pieces(trace_path, CHUNK)
    try:
        with cf.ThreadPoolExecutor(3) as ex:
            fs = [ex.submit(validate_one, module, p, **dict(kw, workers=3)) for p in parts]
        errors = [f.exception() for f in fs if f.exception()]
        for e in sorted(errors, key=lambda e: not isinstance(e, Violation)):
            raise e
        rs = [f.result() for f in fs]
    finally:
        for p in parts:
            os.unlink(p)
    total = rs[0][1]
    for _, r in rs[1:]:
        total.generated += r.generated
        total.distinct += r.distinct
    return sum(m for m, _ in rs), total


def validate_one(module, trace_path, cfg=None, workers=8, env=None, timeout=800, min_events=1):
    """Validate an NDJSON trace file against specs/<module>.tla.

    Every episode (lines from a "Begin" event to the next) is an initial state; an event that the specification does
    not allow makes TLC report a deadlock at that event, an invariant broken on the way is reported as such.  A
    rejection is only believed if a second run repeats it."""
    n = mend(trace_path)
    if n < min_events:
        raise CheckError("trace %s has only %d events" % (trace_path, n))
    e = {"TRACE": trace_path}
    e.update(env or {})
    r = tlc(module, cfg or module + ".cfg", workers=workers, env=e, timeout=timeout)
    if r.rc == 0 and "No error has been found" in r.out:
        log("[trace] %s: %d events accepted, %d states, %.1fs" % (module, n, r.distinct, r.wall))
        return n, r
    if rejected(r):
        r2 = tlc(module, cfg or module + ".cfg", workers=1, env=e, timeout=timeout)
        if not rejected(r2):
            r2 = tlc(module, cfg or module + ".cfg", workers=2, env=e, timeout=timeout)
        if not rejected(r2):
            raise CheckError("rejection by %s did not repeat" % module)
        st = last_state(r2.out)
        m = re.search(r"/\\ l = (\d+)", st)
        line = ""
        ep = []
        if m:
            li = int(m.group(1))
            lines = open(trace_path).read().split("\n")
            inv = re.search(r"Error: Invariant (\S+) is violated", r2.out)
            line = lines[li - 1] if inv else (lines[li] if li < len(lines) else "")
            b = li - 1
            while b > 0 and '"ev":"Begin"' not in lines[b]:
                b -= 1
            ep = lines[b:li + 1]
        kind = re.search(r"Error: (Invariant \S+ is violated|Deadlock reached|Action property.*)", r2.out)
        raise Violation("%s rejects the recorded execution (%s) at event: %s" % (
            module, kind.group(1) if kind else "?", line[:1500]),
            [("episode.ndjson", "\n".join(ep) + "\n"), ("tlc.txt", r2.out[-20000:]), ("state.txt", st)])
    raise CheckError("TLC failed on %s (rc=%s):\n%s" % (module, r.rc, r.out[-3000:]))


def generate(module, cfg, env=None, workers=1, timeout=600, simulate=None, extra=()):
    """Behaviours out of the specification: every line TLC prints as "SCRIPT ..." (JSON)."""
    r = tlc(module, cfg, workers=workers, env=env, timeout=timeout, simulate=simulate, extra=extra)
    scripts = [m for m in re.findall(r'<<"SCRIPT", "(.*)">>', r.out)]
    scripts = [json.loads(s.encode().decode("unicode_escape") if "\\" in s else s) for s in scripts]
    if not scripts:
        raise CheckError("no behaviours generated by %s:\n%s" % (module, r.out[-3000:]))
    log("[gen] %s: %d behaviours, %.1fs" % (module, len(scripts), r.wall))
    return scripts, r


def run_harness(exe, args, out, env=None, timeout=400, stdin=None, ok_rc=(0,)):
    """Run the harness.  The harness itself guards the code under test (it forks or catches), so a non-zero exit or
    signal that it does not turn into an event means the code under test crashed the process: reported as Crash."""
    e = dict(os.environ)
    e.update(env or {})
    t0 = time.time()
    try:
        p = subprocess.run([exe] + [str(a) for a in args] + [out], env=e, stdin=stdin, stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, timeout=timeout)
    except subprocess.TimeoutExpired:
        return "timeout"
    log("[harness] %s rc=%s %.1fs" % (os.path.basename(exe), p.returncode, time.time() - t0))
    if p.returncode in ok_rc:
        return None
    if p.returncode == 97:
        raise CheckError("harness self-error: " + p.stderr.decode(errors="replace")[-2000:])
    return "rc=%d %s" % (p.returncode, p.stderr.decode(errors="replace")[-500:])


# ---------------------------------------------------------------------------------------------------- evidence
class Check:
    def __init__(self, prop, level="model_checking"):
        self.prop = prop
        self.level = level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.t0 = time.time()
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.extra = {}
        self.assumptions = []
        self.violations = []
        self.known = []

    @property
    def thorough(self):
        return self.tier == "thorough"

    def q(self, quick, thorough):
        return thorough if self.thorough else quick

    def design(self, module, cfg, **kw):
        r = design(module, cfg, **kw)
        self.states += r.distinct
        self.transitions += r.generated
        self.extra.setdefault("design_models", []).append(
            {"module": module, "states": r.distinct, "transitions": r.generated, "depth": r.depth})
        return r

    def prove(self, module, *goals):
        """goals: (invariant, initial predicate or None, steps)"""
        for inv, init, length in goals:
            prove(module, inv, init, length)
            self.extra.setdefault("symbolic_proofs", []).append({"module": module, "invariant": inv, "from": init or "Init", "steps": length})

    def inductive(self, module, inv, *goals):
        """inv is inductive, and every step from it satisfies the goals"""
        self.prove(module, (inv, None, 0), (inv, inv, 1), *goals)

    def gen(self, module, cfg, **kw):
        s, r = generate(module, cfg, **kw)
        self.extra.setdefault("generated_behaviours", []).append({"module": module, "behaviours": len(s)})
        return s

    def validate(self, module, trace, **kw):
        n, r = validate(module, trace, **kw)
        eps = 0
        evs = {}
        sample = []
        for line in open(trace):
            m = re.match(r'\{"ev":"(\w+)"', line)
            k = m.group(1) if m else "?"
            evs[k] = evs.get(k, 0) + 1
            if k == "Begin":
                eps += 1
            if eps == 2 and len(sample) < 6:
                sample.append(line.strip()[:400])
        self.traces += eps
        self.extra.setdefault("trace_models", []).append(
            {"module": module, "events": n, "episodes": eps, "events_by_kind": evs, "states": r.distinct})
        self.samples.append({"module": module, "events": sample})
        return n

    def harness(self, exe, args, name, crash_is_violation=True, **kw):
        out = os.path.join(scratch(), name)
        err = run_harness(exe, args, out, **kw)
        if err:
            if err == "timeout":
                raise Violation("the code under test did not finish (harness %s timed out)" % name,
                                [("tail.ndjson", tail(out))])
            raise Violation("the code under test crashed the process (%s): %s" % (name, err), [("tail.ndjson", tail(out))])
        return out

    def run(self, fn):
        rc = 3
        try:
            fn(self)
            rc = 0
        except Violation as v:
            d = os.path.join(VERIF, "replays", "%s-%s-%d" % (self.prop, self.tier, self.seed))
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            open(os.path.join(d, "what.txt"), "w").write(v.what + "\n")
            for name, content in v.files:
                open(os.path.join(d, name), "w").write(content)
            self.violations.append(v.what)
            log("violation: " + v.what)
            print("VIOLATION property=%s replay=%s" % (self.prop, d))
            rc = 1
        except CheckError as e:
            log("CHECK ERROR: %s" % e)
            rc = 3
        finally:
            cleanup()
        if rc in (0, 1):
            for k in self.known:
                print("KNOWN-FINDING: property=%s %s" % (self.prop, k))
            self.write_evidence()
            if rc == 0:
                print("OK property=%s tier=%s wall=%.1fs" % (self.prop, self.tier, time.time() - self.t0))
        sys.stdout.flush()
        return rc

    def write_evidence(self):
        cov = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
               "samples": self.samples or ["violation before any trace was accepted"]}
        cov.update(self.extra)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
              "violations": len(self.violations)}
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        tmp = os.path.join(d, self.prop + ".json.tmp")
        json.dump(ev, open(tmp, "w"), indent=1)
        os.replace(tmp, os.path.join(d, self.prop + ".json"))


def tail(path, n=30):
    try:
        return "\n".join(open(path, errors="replace").read().split("\n")[-n:])
    except OSError:
        return ""
