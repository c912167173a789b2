"""Statements: the driver records what evaluating them does, TLC decides it with spec/StmtCheck.tla."""
import json, os, re
from vlib import *
import exprcheck


def main(rep, driver, modes, key=lambda mode, case, why: re.sub(r"[:(].*", "", why), libs=("base", "runtime"), sources=(), defs=()):
    """modes: {mode: (quick cases per shard, thorough cases per shard and round)}"""
    exe = build(driver, [driver + ".cc"] + list(sources), defs=list(defs), libs=libs)
    for mode, (quick, thorough) in modes.items():
        sample = None
        for rnd in range(8 if THOROUGH else 1):
            n = thorough if THOROUGH else quick
            outs = [os.path.join(scratch(), "stmt-%s-%d-%d.nd" % (mode, rnd, i)) for i in range(8)]
            cmds = [[exe, mode, str((SEED + rnd * 100) * 8 + i), str(n), outs[i]] for i in range(8)]
            lines = []
            for i, (rc, out, to) in enumerate(run_parallel(cmds, 300)):
                for l in open(outs[i], errors="replace"):
                    try:
                        j = json.loads(l)
                    except ValueError:
                        continue
                    if j["k"] == "crash":
                        rep.violation("%s: %s (signal %d)" % (mode, "does not terminate" if j["sig"] == 14 else "crashes", j["sig"]),
                                      j, key=key(mode, j, "crash %d" % j["sig"]))
                    else:
                        lines.append(l)
                m = re.search(r"^\{.*\}$", out, re.M)
                if rc == 0 and m:
                    d = rep.cov.setdefault("modes", {}).setdefault(mode, {})
                    for k, v in json.loads(m.group(0)).items():
                        d[k] = d.get(k, 0) + v
                elif rc != 77:
                    raise CheckError("driver failed (%s): %s" % (rc, out[-2000:]))
            path = os.path.join(scratch(), "stmt.nd")
            with open(path, "w") as f:
                f.writelines(lines)
            if not lines:
                continue
            r, bad = exprcheck.decide(path, module="StmtCheck", workers=NPROC, timeout=800, heap="8g")
            rep.add_tlc(r)
            rep.cov["traces_validated_against_impl"] += len(lines)
            for i in sorted(bad):
                case = json.loads(lines[i])
                rep.violation("%s: %s" % (mode, bad[i]), case, key=key(mode, case, bad[i]))
            for o in outs:
                os.unlink(o)
            sample = json.loads(min(lines[:200], key=len))
        if sample:
            rep.cov["samples"].append(sample)
