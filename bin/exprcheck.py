"""Shared by the checks of the expression functions: run the driver, let TLC decide the cases with spec/ExprCheck.tla."""
import json, os, re
from concurrent.futures import ThreadPoolExecutor
import vlib
from vlib import *


def decide(path, module="ExprCheck", workers=4, timeout=600, heap="3g"):
    """Returns (TlcResult, {case index (0-based): reason})."""
    cfg = "CONSTANT Workers = 64\nINIT Init\nNEXT Next\nINVARIANT Decided\n"
    r = tlc_or_die(module, cfg, env={"CASES": path}, workers=workers, timeout=timeout, heap=heap)
    if not r.ok:
        raise CheckError("TLC could not decide %s: %s\n%s" % (path, r.kind, r.out[-5000:]))
    bad = {}
    for l in r.printed:
        m = re.match(r'V (\d+) (.*)', l)
        bad[int(m.group(1)) - 1] = m.group(2)
    return r, bad


def decide_all(paths, **k):
    with ThreadPoolExecutor(2) as ex:
        return list(ex.map(lambda p: decide(p, **k), paths))


def merge(paths, out):
    items = []
    for p in paths:
        if os.path.exists(p):
            items += [l for l in open(p) if l.strip()]
    # drop a record cut short by a crash
    good = []
    for l in items:
        try:
            json.loads(l)
            good.append(l)
        except ValueError:
            pass
    with open(out, "w") as f:
        f.writelines(good)
    return good


def expr_mode(rep, exe, mode, n, keep, shards=8, timeout=400):
    """Run one mode of expr_driver on `shards` seeds and decide all kept cases."""
    outs = [os.path.join(scratch(), "%s-%d.nd" % (mode, i)) for i in range(shards)]
    cmds = [[exe, mode, str(SEED * 1000 + i), str(n), str(keep), outs[i]] for i in range(shards)]
    res = run_parallel(cmds, timeout)
    stats = {"generated": 0, "skipped": 0, "kept": 0, "suspicious": 0, "nontrivial": 0}
    for i, (rc, out, to) in enumerate(res):
        m = re.search(r"\{.*\}", out)
        if rc == 0 and m:
            for k, v in json.loads(m.group(0)).items():
                stats[k] += v
        else:
            try:
                case = json.loads(open(outs[i] + ".progress").read())
            except Exception:
                case = None
            what = "does not terminate" if to or rc == -14 else "crashes (status %d)" % rc
            rep.violation("%s: the library %s on a legal input" % (mode, what), {"case": case, "output": out[-1500:]},
                          key="crash")
    path = os.path.join(scratch(), mode + ".nd")
    lines = merge(outs, path)
    if not lines:
        if not rep.viol:
            raise CheckError("no cases for mode " + mode)
        return stats
    r, bad = decide(path, workers=NPROC, heap="8g")
    rep.add_tlc(r)
    rep.cov["traces_validated_against_impl"] += len(lines)
    for l in lines[:2]:
        rep.cov["samples"].append(json.loads(l))
    for i in sorted(bad):
        case = json.loads(lines[i])
        if case.get("tw"):
            continue
        key = None
        if i + 1 < len(lines):
            tw = json.loads(lines[i + 1]).get("tw")
            if tw and (i + 1) not in bad:
                key = tw
        rep.violation("%s: %s" % (mode, bad[i]), case, key=key)
    rep.cov.setdefault("modes", {})[mode] = dict(stats, decided=len(lines))
    return stats
