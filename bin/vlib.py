"""Shared machinery of the checks: build /repo's sources into a scratch folder, run drivers,
run TLC on the recorded cases/traces, write evidence, report."""
import atexit, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SLINKY_REPO", "/repo")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
THOROUGH = TIER == "thorough"
NPROC = os.cpu_count() or 8
T0 = time.time()

TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="slinkyv-")
        keep = os.environ.get("VERIF_KEEP")
        if keep:
            print("scratch:", _scratch, file=sys.stderr)
        else:
            atexit.register(lambda: shutil.rmtree(_scratch, ignore_errors=True))
    return _scratch


class CheckError(Exception):
    pass


LIBS = {
    "base": ["base/arithmetic.cc", "base/thread_pool.cc", "base/chrome_trace.cc"],
    "pool": ["base/thread_pool_impl.cc"],
    "runtime": ["runtime/buffer.cc", "runtime/depends_on.cc", "runtime/evaluate.cc", "runtime/expr_stmt.cc",
                "runtime/pipeline.cc", "runtime/print.cc"],
    "builder": ["builder/pipeline.cc", "builder/node_mutator.cc", "builder/optimizations.cc", "builder/simplify.cc",
                "builder/simplify_bounds.cc", "builder/simplify_exprs.cc", "builder/slide_and_fold_storage.cc",
                "builder/substitute.cc", "builder/replica_pipeline.cc"],
}


def lib_sources(sets):
    """The library's sources: everything the repository's own tree has in that folder (so that a refactoring which
    adds or splits a file still builds), except files that are not part of the library."""
    out = []
    for s in sets:
        d = {"base": "base", "pool": "base"}.get(s, s)
        base = os.path.join(REPO, "slinky", d)
        have = sorted(f for f in os.listdir(base) if f.endswith(".cc"))
        if s == "pool":
            want = [f for f in have if "thread_pool_impl" in f]
        elif s == "base":
            want = [f for f in have if "thread_pool_impl" not in f]
        elif s == "runtime":
            want = [f for f in have if f != "visualize.cc"]
        else:
            want = have
        out += [os.path.join(base, f) for f in want]
    return out


def build(name, drivers, libs=("base", "pool", "runtime", "builder"), opt="-O1", defs=(), shim=False, extra=()):
    """Compile /repo's library sources and the given driver sources into one binary in the scratch folder."""
    d = os.path.join(scratch(), "build-" + name)
    os.makedirs(d, exist_ok=True)
    flags = ["-std=c++17", opt, "-fno-rtti", "-fno-exceptions", "-w", "-pthread", "-I" + REPO,
             "-I" + os.path.join(VERIF, "harness")] + ["-D" + x for x in defs] + list(extra)
    jobs = []
    for src in lib_sources(libs):
        f = list(flags)
        if shim:
            f += ["-include", os.path.join(VERIF, "harness", "sched_shim.h")]
        jobs.append((src, f))
    for src in drivers:
        f = list(flags)
        if shim and src != "vsched.cc":
            f += ["-include", os.path.join(VERIF, "harness", "sched_shim.h")]
        jobs.append((os.path.join(VERIF, "harness", src), f))
    # the slow ones first
    order = ["simplify_exprs.cc", "simplify.cc", "pipeline.cc", "optimizations.cc"]
    jobs.sort(key=lambda j: 0 if any(j[0].endswith(o) for o in order) or VERIF in j[0] else 1)

    def one(j):
        src, f = j
        o = os.path.join(d, re.sub(r"[^A-Za-z0-9]", "_", src) + ".o")
        p = subprocess.run(["g++"] + f + ["-c", src, "-o", o], capture_output=True, text=True)
        return src, o, p
    objs = []
    with ThreadPoolExecutor(NPROC) as ex:
        for src, o, p in ex.map(one, jobs):
            if p.returncode:
                raise CheckError("cannot compile %s:\n%s" % (src, p.stderr[-4000:]))
            objs.append(o)
    exe = os.path.join(d, name)
    p = subprocess.run(["g++", "-pthread", "-o", exe] + objs + list(extra), capture_output=True, text=True)
    if p.returncode:
        raise CheckError("cannot link:\n" + p.stderr[-4000:])
    return exe


def run(cmd, timeout, env=None, check=True, cwd=None):
    """Run a driver. Returns (returncode, stdout+stderr tail, timed_out)."""
    e = dict(os.environ)
    if env:
        e.update({k: str(v) for k, v in env.items()})
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e, cwd=cwd or scratch(),
                         start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        to = False
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        out, _ = p.communicate()
        to = True
    return p.returncode, out.decode("utf8", "replace")[-20000:], to


def run_parallel(cmds, timeout, env=None):
    with ThreadPoolExecutor(NPROC) as ex:
        return list(ex.map(lambda c: run(c, timeout, env), cmds))


class TlcResult:
    def __init__(self):
        self.ok = False; self.kind = None; self.states = 0; self.distinct = 0; self.out = ""; self.vars = {}
        self.printed = []


def tlc(spec, cfg, env=None, workers=None, timeout=600, heap="6g", deadlock=False, extra=(), simulate=None, coverage=False):
    """Run TLC on spec/<spec>.tla with the configuration text cfg."""
    r = TlcResult()
    d = tempfile.mkdtemp(prefix="tlc-", dir=scratch())
    for f in os.listdir(os.path.join(VERIF, "spec")):
        if f.endswith(".tla"):
            os.symlink(os.path.join(VERIF, "spec", f), os.path.join(d, f))
    with open(os.path.join(d, "MC.cfg"), "w") as f:
        f.write(cfg)
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-cp", TLA_CP, "tlc2.TLC", "-workers",
           str(workers or NPROC), "-metadir", os.path.join(d, "md"), "-noGenerateSpecTE", "-config", "MC.cfg"]
    if not deadlock:
        cmd += ["-deadlock"]
    if coverage:
        cmd += ["-coverage", "1"]
    cmd += list(extra)
    cmd += [spec]
    e = dict(os.environ)
    e.update({k: str(v) for k, v in (env or {}).items()})
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e, cwd=d, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        out, _ = p.communicate()
        r.kind = "timeout"
    r.out = out.decode("utf8", "replace")
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", r.out)
    if m:
        r.states, r.distinct = int(m[-1][0]), int(m[-1][1])
    r.printed = re.findall(r'^"(V \d+ .*)"$', r.out, re.M)
    if len(r.printed) != len(re.findall(r'^"V ', r.out, re.M)):
        raise CheckError('a verdict of TLC could not be read')
    if r.kind == "timeout":
        return r
    if "Model checking completed. No error has been found." in r.out:
        r.ok = True
    elif re.search(r"Invariant .* is violated", r.out):
        r.kind = "invariant"
    elif "Temporal properties were violated" in r.out or "violates" in r.out and "property" in r.out.lower():
        r.kind = "property"
    elif "Deadlock reached" in r.out:
        r.kind = "deadlock"
    elif "Action property" in r.out and "is violated" in r.out:
        r.kind = "property"
    else:
        r.kind = "error"
    # last state of the error trace
    st = re.findall(r"State \d+: .*?\n(.*?)(?=\n\n|\nState |\Z)", r.out, re.S)
    if st:
        for mm in re.finditer(r"^(?:/\\ )?(\w+) = (.*?)(?=^(?:/\\ )?\w+ = |\Z)", st[-1], re.S | re.M):
            r.vars[mm.group(1)] = mm.group(2).strip()
    shutil.rmtree(d, ignore_errors=True)
    return r


def tlc_or_die(*a, **k):
    r = tlc(*a, **k)
    if r.kind in ("error", "timeout"):
        raise CheckError("TLC %s:\n%s" % (r.kind, r.out[-6000:]))
    return r


# ---------------------------------------------------------------------------------------------------------- reporting

class Report:
    def __init__(self, pid, level="model_checking"):
        self.pid = pid
        self.level = level
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.assumptions = []
        self.viol = []
        self.known = load_known(pid)
        self.known_hit = []

    def add_tlc(self, r):
        self.cov["states"] += r.distinct
        self.cov["transitions"] += r.states

    def violation(self, what, replay, key=None):
        """what: one line; replay: dict stored for replaying; key: identity for the known-findings file."""
        for k in self.known:
            if key is not None and k["key"] == key:
                if k not in self.known_hit:
                    self.known_hit.append(k)
                return
        d = os.path.join(VERIF, "out", "replay")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s-%d.json" % (self.pid, len(self.viol)))
        with open(p, "w") as f:
            json.dump({"property": self.pid, "what": what, "seed": SEED, "key": key, "replay": replay}, f, indent=1)
        self.viol.append((what, p))

    def finish(self):
        ev = {"property": self.pid, "tier": TIER, "seed": SEED, "level": self.level, "coverage": self.cov,
              "assumptions": self.assumptions, "violations": len(self.viol), "wall_s": round(time.time() - T0, 2)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        tmp = os.path.join(VERIF, "evidence", "." + self.pid + ".tmp")
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(tmp, os.path.join(VERIF, "evidence", self.pid + ".json"))
        for k in self.known_hit + [k for k in load_known(self.pid) if k.get("excluded")]:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]))
        print("%s: %s; %s; %.1fs" % (self.pid, TIER, json.dumps({k: v for k, v in self.cov.items() if k != "samples"})[:600],
                                     time.time() - T0))
        if self.viol:
            for what, p in self.viol[:int(os.environ.get("VERIF_SHOW","10"))]:
                print("  " + what)
            print("VIOLATION property=%s replay=%s" % (self.pid, self.viol[0][1]))
            sys.stdout.flush()
            return 1
        sys.stdout.flush()
        return 0


def load_known(pid):
    """KNOWN_FINDINGS.jsonl: one finding per line: {"property", "key", "what", ...} or {"fixed": ...}"""
    p = os.path.join(VERIF, "KNOWN_FINDINGS.jsonl")
    out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if not line or line.startswith("#") or line.startswith("fixed:"):
                continue
            j = json.loads(line)
            if j.get("property") == pid and not j.get("fixed"):
                out.append(j)
    return out


def read_ndjson(path):
    out = []
    with open(path) as f:
        for line in f:
            line = line.strip()
            if line:
                out.append(json.loads(line))
    return out


def write_ndjson(path, items):
    with open(path, "w") as f:
        for x in items:
            f.write(json.dumps(x, separators=(",", ":")) + "\n")
