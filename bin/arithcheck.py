"""Integer helpers: the driver records results, TLC decides them with spec/ArithCheck.tla."""
import json, os, re
from vlib import *
import exprcheck


def main(rep):
    exe = build("arith", ["arith_driver.cc"], libs=("base",), opt="-O1")
    rounds = 12 if THOROUGH else 1
    n = 1500 if THOROUGH else 300
    for rnd in range(rounds):
        outs = [os.path.join(scratch(), "arith-%d-%d.nd" % (rnd, i)) for i in range(8)]
        cmds = [[exe, str((SEED + rnd * 100) * 8 + i), str(n), outs[i]] for i in range(8)]
        stats = {}
        lines = []
        for i, (rc, out, to) in enumerate(run_parallel(cmds, 300)):
            for l in open(outs[i], errors="replace"):
                try:
                    j = json.loads(l)
                except ValueError:
                    continue
                if j["k"] == "crash":
                    rep.violation("%s %s" % (j["what"], "does not terminate" if j["sig"] == 14 else "crashes (signal %d)" % j["sig"]), j, key=j["what"])
                else:
                    lines.append(l)
            m = re.search(r"\{.*\}", out)
            if rc == 0 and m:
                for k, v in json.loads(m.group(0)).items():
                    stats[k] = stats.get(k, 0) + v
            elif rc != 77:
                raise CheckError("driver failed (%s): %s" % (rc, out[-2000:]))
        path = os.path.join(scratch(), "arith.nd")
        with open(path, "w") as f:
            f.writelines(lines)
        r, bad = exprcheck.decide(path, module="ArithCheck", workers=NPROC, timeout=800, heap="8g")
        rep.add_tlc(r)
        rep.cov["traces_validated_against_impl"] += len(lines)
        for i in sorted(bad):
            if bad[i].startswith("harness"):
                raise CheckError(bad[i] + ": " + lines[i][:1000])
            rep.violation(bad[i], json.loads(lines[i]), key=bad[i])
        d = rep.cov.setdefault("modes", {}).setdefault("arith", {})
        for k, v in stats.items():
            d[k] = d.get(k, 0) + v
    rep.cov["samples"].append(json.loads(lines[len(lines) // 2]))
