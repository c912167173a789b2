"""C18: shared objects live exactly as long as they are referenced."""
import json, os, re
from vlib import *


def main():
    rep = Report("C18")
    exe = build("ref", ["ref_driver.cc", "vsched.cc"], libs=(), shim=True)
    # every transition of the specification, each after a sequence of operations that leads to its state
    sizes = [("{0, 1, 2}", 3, 2, 14), ("{0, 1}", 2, 3, 14)] if THOROUGH else [("{0, 1, 2}", 3, 2, 12)]
    total = 0
    for slots, ns, objs, mlen in sizes:
        r = tlc_or_die("RefCountMC", "INIT MCInit\nNEXT MCNext\nINVARIANT Inv\nVIEW View\nCONSTANT Slots = %s\nCONSTANT MaxObjs = %d\n"
                       "CONSTANT MaxLen = %d\n" % (slots, objs, mlen), workers=NPROC, timeout=700)
        if not r.ok:
            raise CheckError("the specification: " + r.out[-3000:])
        rep.add_tlc(r)
        path = os.path.join(scratch(), "edges.txt")
        edges = []
        with open(path, "w") as f:
            for l in re.findall(r'^"E (.*)"$', r.out, re.M):
                e = json.loads(l.replace('\\"', '"'))
                ops = e["p"] + [e["op"]]
                f.write("%d %d %s %d %s %d %d %s %s\n" % (ns, len(ops), " ".join("%s %d %d" % tuple(o) for o in ops), e["self"],
                        " ".join(map(str, e["r"]["h"])), e["r"]["raw"], len(e["r"]["nx"]), " ".join(map(str, e["r"]["nx"])),
                        " ".join(map(str, e["r"]["c"]))))
                edges.append(ops)
        if len(edges) < r.distinct:
            raise CheckError("the transitions could not be read")
        out = os.path.join(scratch(), "replay.nd")
        rc, o, to = run([exe, "replay", path, out], 300)
        m = re.search(r"\{.*\}", o)
        if rc != 0 or to or not m or json.loads(m.group(0))["replayed"] != len(edges):
            rep.violation("replaying sequences of operations crashes (status %s)" % rc, {"output": o[-500:], "edges": path}, key="crash")
        for l in open(out):
            j = json.loads(l)
            rep.violation("after %s: %s" % (j["ops"], j["why"]), j, key=j["why"])
        total += len(edges)
        rep.cov["samples"].append({"ops": edges[len(edges) // 2]})
    rep.cov["traces_validated_against_impl"] += total
    # threads
    stats, lines = {}, []
    rounds = 8 if THOROUGH else 1
    for rnd in range(rounds):
        cmds, outs = [], []
        for i in range(8):
            for sysm in (False, True):
                o = os.path.join(scratch(), "ref-%d-%d.nd" % (i, sysm))
                outs.append(o)
                cmds.append([exe, "threads", str(18000 + SEED * 1000 + rnd * 20 + i + 10 * sysm), "60", "400" if sysm else "100", "3", o] + (["dfs"] if sysm else []))
        lines = []
        for i, (rc, out, to) in enumerate(run_parallel(cmds, 300)):
            m = re.search(r"^\{\"programs.*\}$", out, re.M)
            if (rc != 0 or not m) and rc != 8:
                rep.violation("a program of threads %s (status %s)" % ("does not terminate" if to else "crashes", rc), {"cmd": cmds[i][1:], "output": out[-500:]}, key="crash")
            elif m:
                for k, v in json.loads(m.group(0)).items():
                    stats[k] = stats.get(k, 0) + v
            for l in open(outs[i], errors="replace"):
                try:
                    lines.append((l, json.loads(l)))
                except ValueError:
                    pass
        path = os.path.join(scratch(), "ref.nd")
        with open(path, "w") as f:
            f.writelines(l for l, _ in lines)
        r = tlc_or_die("RefTrace", "INIT Init\nNEXT Next\nVIEW Trace\nINVARIANT Ends\nCONSTANT Slots = {0, 1, 2, 3, 4, 5, 6, 7, 8}\nCONSTANT MaxObjs = 30\n", env={"CASES": path},
                       workers=NPROC, timeout=600, heap="8g")
        if not r.ok:
            raise CheckError("TLC could not decide: %s\n%s" % (r.kind, r.out[-4000:]))
        rep.add_tlc(r)
        rep.cov["traces_validated_against_impl"] += len(lines)
        for l in r.printed:
            m = re.match(r"V (\d+) (.*)", l)
            j = lines[int(m.group(1)) - 1][1]
            if m.group(2).startswith("harness"):
                raise CheckError(m.group(2) + ": " + json.dumps(j)[:1500])
            rep.violation("program %s: %s" % (j["seed"], m.group(2)), j, key=m.group(2))
    rep.cov["modes"] = {"replayed": total, "threads": stats}
    return rep.finish()
