"""Shared by the checks of whole pipelines: generate models, build and run them with the real library (pipe_driver), let
TLC decide the recorded traces with spec/PipelineTrace.tla."""
import hashlib, json, os, re
import vlib
from vlib import *
from exprcheck import decide as _decide

CFG = "INIT Init\nNEXT Next\nVIEW Trace\nINVARIANT Ends\n"
MODEL_KEYS = ("bufs", "funcs", "cons", "nvars", "no_alias", "stackthr", "nochecks", "trace")


def key_of(case):
    """Known findings are identified by the pipeline that fails."""
    m = json.dumps([case.get(k) for k in MODEL_KEYS], sort_keys=True, separators=(",", ":"))
    return hashlib.sha1(m.encode()).hexdigest()[:16]


def decide(lines, timeout=600):
    path = os.path.join(scratch(), "traces.nd")
    with open(path, "w") as f:
        f.writelines(lines)
    r = tlc_or_die("PipelineTrace", CFG, env={"CASES": path}, workers=NPROC, timeout=timeout, heap="10g")
    if not r.ok:
        raise CheckError("TLC could not decide: %s\n%s" % (r.kind, r.out[-5000:]))
    bad = {}
    for l in r.printed:
        m = re.match(r'V (\d+) (.*)', l)
        bad.setdefault(int(m.group(1)) - 1, m.group(2))
    return r, bad


def build_driver(name="pipe_driver", **k):
    return build(name, [name + ".cc"], **k)


def pipe_mode(rep, exe, mode, offset, per_shard, keep, shards=8, timeout=500, env=None, args=(), per_model=None):
    """Shards offset..offset+shards-1 of one mode (of the parallel driver: with per_model schedules of every model)."""
    outs = [os.path.join(scratch(), "%s-%d.nd" % (mode, offset + i)) for i in range(shards)]
    cmds = [[exe, mode, str(offset + i), str(per_shard)] + ([str(per_model)] if per_model else []) + [str(keep), outs[i]] + list(args) for i in range(shards)]
    res = run_parallel(cmds, timeout, env)
    stats = {}
    for i, (rc, out, to) in enumerate(res):
        m = re.search(r"^\{\"generated.*\}$", out, re.M)
        if rc != 0 or not m:
            if to:
                rep.violation("%s: building or running the pipelines takes forever" % mode, {"cmd": cmds[i], "output": out[-1500:]})
                continue
            raise CheckError("driver failed (%s): %s" % (rc, out[-2000:]))
        for k, v in json.loads(m.group(0)).items():
            stats[k] = stats.get(k, 0) + v
    lines, good = [], []
    for o in outs:
        for l in open(o, errors="replace"):
            if not l.strip():
                continue
            try:
                j = json.loads(l)
            except ValueError:
                continue       # cut short by a crash
            if j.get("k") == "crash":
                what = "does not terminate" if j["sig"] == 27 else "crashes (signal %s)" % j["sig"]
                rep.violation("%s: building or running a pipeline %s (seed %s)" % (mode, what, j["seed"]), j,
                              key=key_of(j))
            elif "ev" in j:
                lines.append((l, j))
    if not lines:
        if not rep.viol:
            raise CheckError("no traces for mode " + mode)
        return stats
    r, bad = decide([l for l, _ in lines], timeout=timeout)
    rep.add_tlc(r)
    rep.cov["traces_validated_against_impl"] += len(lines)
    for l, j in lines[:2]:
        rep.cov["samples"].append({k: j[k] for k in ("seed",) + MODEL_KEYS if k in j})
    hinted = sum(1 for _, j in lines if j["hint"])
    for i in sorted(bad):
        case = lines[i][1]
        rep.violation("%s %s: %s" % (mode, case["seed"], bad[i]), case, key=key_of(case))
    d = rep.cov.setdefault("modes", {}).setdefault(mode, {})
    for k, v in dict(stats, decided=len(lines), screened_out=hinted).items():
        d[k] = d.get(k, 0) + v
    return stats


def build_par():
    """The driver which runs pipelines with the real thread pool under a controlled schedule."""
    return build("par", ["par_driver.cc", "vsched.cc"], shim=True, defs=("VF_PAR",))


def shards(first):
    """Which shards a run covers: quick 8 of them, chosen by the seed; thorough all of the 32 and 32 more."""
    if THOROUGH:
        return first, 64
    return first + 8 * ((SEED - 1) % 4), 8
