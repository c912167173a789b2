"""The thread pool: programs of threads run under a scheduler that controls the interleaving (harness/vsched.cc), the
recorded traces are decided by TLC with spec/ThreadPoolTrace.tla."""
import json, os, re
from vlib import *


def main(rep, offset):
    exe = build("pool_driver", ["pool_driver.cc", "vsched.cc"], libs=("base", "pool"), shim=True)
    rounds = 6 if THOROUGH else 1
    for threads, tasks in ((("{0, 1, 2}", 1), ("{0, 1}", 2)) if THOROUGH else (("{0, 1}", 1),)):
        r = tlc_or_die("ThreadPoolMC", "INIT MCInit\nNEXT MCNext\nINVARIANT TypeOK\nINVARIANT Exclusive\nINVARIANT NeverStuck\n"
                       "CONSTANT Threads = %s\nCONSTANT MaxTasks = %d\n" % (threads, tasks), workers=NPROC, timeout=800)
        if not r.ok:
            raise CheckError("the abstract machine: " + r.out[-3000:])
        rep.add_tlc(r)
    for rnd in range(rounds):
        first = offset + 100 * ((SEED - 1) % 4 if not THOROUGH else rnd)
        cmds, outs = [], []
        for i in range(8):
            o = os.path.join(scratch(), "pool-%d-%d.nd" % (rnd, i))
            outs.append(o)
            cmds.append([exe, str(first + i), "90" if not THOROUGH else "300", "60" if not THOROUGH else "150", "3", o])
        for i in range(8):
            o = os.path.join(scratch(), "poold-%d-%d.nd" % (rnd, i))
            outs.append(o)
            cmds.append([exe, str(first + 50 + i), "20" if not THOROUGH else "60", "300" if not THOROUGH else "3000", "3", o, "dfs"])
        res = run_parallel(cmds, 700)
        stats = {}
        for i, (rc, out, to) in enumerate(res):
            m = re.search(r"^\{\"generated.*\}$", out, re.M)
            if to:
                rep.violation("the thread pool does not terminate", {"cmd": cmds[i], "output": out[-1500:]}, key="hang")
                continue
            if rc != 0 or not m:
                raise CheckError("driver failed (%s): %s" % (rc, out[-2000:]))
            for k, v in json.loads(m.group(0)).items():
                stats[k] = stats.get(k, 0) + v
        lines = []
        for o in outs:
            for l in open(o, errors="replace"):
                try:
                    j = json.loads(l)
                except ValueError:
                    continue
                if j.get("k") == "crash":
                    rep.violation("the thread pool %s" % ("does not terminate" if j["sig"] == 14 else "crashes (signal %s)" % j["sig"]), j, key="crash")
                elif "ev" in j:
                    lines.append((l, j))
        if not lines:
            if not rep.viol:
                raise CheckError("no traces")
            return
        path = os.path.join(scratch(), "pool.nd")
        with open(path, "w") as f:
            f.writelines(l for l, _ in lines)
        r = tlc_or_die("ThreadPoolTrace", "INIT Init\nNEXT Next\nVIEW Trace\nINVARIANT Ends\n", env={"CASES": path}, workers=NPROC,
                       timeout=600, heap="10g")
        if not r.ok:
            raise CheckError("TLC could not decide: %s\n%s" % (r.kind, r.out[-4000:]))
        rep.add_tlc(r)
        rep.cov["traces_validated_against_impl"] += len(lines)
        for _, j in lines[:1]:
            rep.cov["samples"].append({k: j[k] for k in ("seed", "workers", "tasks", "threads", "sched")})
        bad = {}
        for l in r.printed:
            m = re.match(r'V (\d+) (.*)', l)
            bad.setdefault(int(m.group(1)) - 1, m.group(2))
        for i in sorted(bad):
            if bad[i].startswith("harness"):
                raise CheckError("%s: %s" % (bad[i], lines[i][0][:2000]))
            rep.violation("program %s: %s" % (lines[i][1]["seed"], bad[i]), lines[i][1], key=bad[i])
        d = rep.cov.setdefault("modes", {}).setdefault("pool", {})
        for k, v in dict(stats, decided=len(lines)).items():
            d[k] = d.get(k, 0) + v
