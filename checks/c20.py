"""C20: the replica of a pipeline is the same graph; printed forms are deterministic and distinguish different nodes."""
import glob, json, os, re, subprocess
from vlib import *
import exprcheck


def compile_replicas(d, cc, exe):
    o = cc + ".o"
    r = subprocess.run(["g++", "-std=c++17", "-O0", "-fno-rtti", "-fno-exceptions", "-w", "-pthread", "-I" + REPO, "-I" + os.path.join(VERIF, "harness"), "-c", cc, "-o", o],
                       capture_output=True, text=True)
    if r.returncode == 0:
        r = subprocess.run(["g++", "-o", exe, o] + lib_objects(d) + ["-pthread"], capture_output=True, text=True)
        if r.returncode:
            raise CheckError("cannot link: " + r.stderr[-2000:])
        return None
    return r.stderr


def lib_objects(d):
    return [f for f in glob.glob(os.path.join(d, "*.o")) if "replica_driver" not in f and "print_driver" not in f]


def replicas(rep, exe, seed, n):
    d = os.path.dirname(exe)
    base = [os.path.join(scratch(), "replica-%d" % i) for i in range(8)]
    for rc, out, to in run_parallel([[exe, str(seed * 8 + i), str(n), base[i] + ".nd", base[i] + ".cc"] for i in range(8)], 200):
        if rc != 0:
            rep.violation("the library crashes on a graph (status %d)" % rc, {"output": out[-1500:]}, key="crash")
            return
    with ThreadPoolExecutor(8) as ex:
        errs = list(ex.map(lambda b: compile_replicas(d, b + ".cc", b + ".exe"), base))
    cases = []
    for i, b in enumerate(base):
        graphs = [json.loads(l) for l in open(b + ".nd")]
        if errs[i] is not None:
            for m in re.findall(r"^replica(\d+):\d+:\d+: error: (.*)", errs[i], re.M)[:3]:
                rep.violation("replica: the generated source does not compile: " + m[1][:200],
                              {"seed": seed * 8 + i, "graph": graphs[int(m[0])], "errors": errs[i][:3000]}, key="does not compile")
            if not re.search(r"^replica\d+:\d+:\d+: error", errs[i], re.M):
                raise CheckError("generated source: " + errs[i][-3000:])
            continue
        (rc, out, to), = run_parallel([[b + ".exe", b + ".out"]], 100)
        if rc != 0:
            rep.violation("replica: the generated source crashes (status %d)" % rc, {"seed": seed * 8 + i, "output": out[-1500:]}, key="replica crash")
            continue
        for x, l in zip(graphs, open(b + ".out")):
            y = json.loads(l)
            cases.append({"k": "replica", "seed": seed * 8 + i, "i": x["i"], "a": x["g"], "b": y["g"]})
    path = os.path.join(scratch(), "replica.nd")
    with open(path, "w") as f:
        f.writelines(json.dumps(c) + "\n" for c in cases)
    if not cases:
        return
    r, bad = exprcheck.decide(path, module="Replica", workers=NPROC)
    rep.add_tlc(r)
    rep.cov["traces_validated_against_impl"] += len(cases)
    c = rep.cov.setdefault("modes", {}).setdefault("replica", {"graphs": 0, "functions": 0, "buffers": 0, "located": 0})
    c["graphs"] += len(cases)
    for x in cases:
        c["functions"] += len(x["a"]["funcs"])
        c["buffers"] += len(x["a"]["bufs"])
        c["located"] += sum(1 for f in x["a"]["funcs"].values() if f["at"] and f["at"][0])
    for i in sorted(bad):
        rep.violation("replica: " + bad[i], cases[i], key="replica " + re.sub(r" (of|for|constant) .*", "", bad[i]))
    rep.cov["samples"].append(min(cases, key=lambda c: len(json.dumps(c))))


def printing(rep, exe, seed, n):
    outs = [os.path.join(scratch(), "print-%d.nd" % i) for i in range(8)]
    for rc, out, to in run_parallel([[exe, str(seed * 8 + i), str(n), outs[i]] for i in range(8)], 200):
        if rc != 0:
            rep.violation("printing crashes (status %d)" % rc, {"output": out[-1500:]}, key="print crash")
            return
    path = os.path.join(scratch(), "print.nd")
    lines = exprcheck.merge(outs, path)
    r, bad = exprcheck.decide(path, module="Print", workers=NPROC, heap="8g")
    rep.add_tlc(r)
    rep.cov["traces_validated_against_impl"] += len(lines)
    c = rep.cov.setdefault("modes", {}).setdefault("print", {"groups": 0, "nodes": 0})
    c["groups"] += len(lines)
    c["nodes"] += sum(len(json.loads(l)["items"]) for l in lines)
    for i in sorted(bad):
        case = json.loads(lines[i])
        m = re.search(r"<<(\d+), (\d+)>>", bad[i])
        show = [case["items"][int(k) - 1] for k in m.groups()] if m else case["items"]
        rep.violation("print: " + bad[i], {"nodes": show}, key="print " + re.sub(r":.*", "", bad[i]))


def main():
    rep = Report("C20")
    exe = build("replica", ["replica_driver.cc"])
    d = os.path.dirname(exe)
    pexe = os.path.join(d, "print_driver")
    r = subprocess.run(["g++", "-std=c++17", "-O1", "-fno-rtti", "-fno-exceptions", "-w", "-pthread", "-I" + REPO, "-I" + os.path.join(VERIF, "harness"),
                        os.path.join(VERIF, "harness", "print_driver.cc"), "-o", pexe] + lib_objects(d), capture_output=True, text=True)
    if r.returncode:
        raise CheckError("cannot compile print_driver.cc: " + r.stderr[-3000:])
    for rnd in range(10 if THOROUGH else 1):
        replicas(rep, exe, SEED + 100 * rnd, 120 if THOROUGH else 50)
        printing(rep, pexe, SEED + 100 * rnd, 400 if THOROUGH else 120)
    return rep.finish()
