"""C16: substitution, dependency analysis and structural comparison are consistent."""
import re
from vlib import *
import exprcheck, stmtcheck


def comparing(rep, exe, seed, n):
    outs = [os.path.join(scratch(), "compare-%d.nd" % i) for i in range(8)]
    for rc, out, to in run_parallel([[exe, str(seed * 8 + i), str(n), outs[i], "compare"] for i in range(8)], 200):
        if rc != 0:
            rep.violation("comparing crashes (status %d)" % rc, {"output": out[-1500:]}, key="compare crash")
            return
    path = os.path.join(scratch(), "compare.nd")
    lines = exprcheck.merge(outs, path)
    r, bad = exprcheck.decide(path, module="Compare", workers=NPROC, heap="8g")
    rep.add_tlc(r)
    rep.cov["traces_validated_against_impl"] += len(lines)
    c = rep.cov.setdefault("modes", {}).setdefault("compare", {"groups": 0, "nodes": 0})
    c["groups"] += len(lines)
    c["nodes"] += sum(len(json.loads(l)["items"]) for l in lines)
    for i in sorted(bad):
        case = json.loads(lines[i])
        m = re.search(r"<<(\d+), (\d+)>>", bad[i])
        show = [case["items"][int(k) - 1] for k in m.groups()] if m else case["items"]
        rep.violation("compare: " + bad[i], {"nodes": show}, key="compare " + re.sub(r":.*", "", bad[i]))


def main():
    rep = Report("C16")
    exe = build("expr", ["expr_driver.cc", "hooks.cc"], defs=["SLINKY_VERIFY"])
    exprcheck.expr_mode(rep, exe, "subst", *((300000, 3000) if THOROUGH else (20000, 300)))
    exe = build("compare", ["print_driver.cc"], libs=("base", "runtime", "builder"))
    for rnd in range(10 if THOROUGH else 1):
        comparing(rep, exe, SEED + 100 * rnd, 400 if THOROUGH else 100)
    # In statements
    stmtcheck.main(rep, "trans_driver", {"subst": (400, 2000), "depends": (500, 3000)},
                   libs=("base", "runtime", "builder"), sources=["hooks.cc"], defs=["SLINKY_VERIFY"])
    return rep.finish()
