"""Buffers: the driver records what buffer operations do, TLC decides it with spec/BufferCheck.tla."""
import json, os, re
from vlib import *
import exprcheck


def main(rep, modes, model=False):
    """modes: {mode: (quick cases per shard, thorough cases per shard and round)}"""
    if model:
        r = tlc_or_die("BufferMC", "SPECIFICATION Spec\nCONSTANT Depth = 2\nINVARIANT Denotes\nINVARIANT Keeps\nINVARIANT Fuses\n",
                       workers=NPROC, timeout=600)
        if not r.ok:
            raise CheckError("the abstract machine: " + r.out[-3000:])
        rep.add_tlc(r)
    exe = build("buffer", ["buffer_driver.cc"], libs=("base", "runtime"), extra=["-Wl,--wrap=malloc"])
    for mode, (quick, thorough) in modes.items():
        sample = None
        for rnd in range(8 if THOROUGH else 1):
            n = thorough if THOROUGH else quick
            outs = [os.path.join(scratch(), "buf-%s-%d-%d.nd" % (mode, rnd, i)) for i in range(8)]
            cmds = [[exe, mode, str((SEED + rnd * 100) * 8 + i), str(n), outs[i]] for i in range(8)]
            lines = []
            for i, (rc, out, to) in enumerate(run_parallel(cmds, 300)):
                for l in open(outs[i], errors="replace"):
                    try:
                        j = json.loads(l)
                    except ValueError:
                        continue
                    if j["k"] == "crash":
                        rep.violation("%s (signal %d)" % ("does not terminate" if j["sig"] == 14 else "crashes", j["sig"]), j, key="%s crash %d" % (mode, j["sig"]))
                    else:
                        lines.append(l)
                m = re.search(r"\{.*\}", out)
                if rc == 0 and m:
                    d = rep.cov.setdefault("modes", {}).setdefault(mode, {})
                    for k, v in json.loads(m.group(0)).items():
                        d[k] = d.get(k, 0) + v
                elif rc != 77:
                    raise CheckError("driver failed (%s): %s" % (rc, out[-2000:]))
            path = os.path.join(scratch(), "buf.nd")
            with open(path, "w") as f:
                f.writelines(lines)
            r, bad = exprcheck.decide(path, module="BufferCheck", workers=NPROC, timeout=800, heap="8g")
            rep.add_tlc(r)
            rep.cov["traces_validated_against_impl"] += len(lines)
            for i in sorted(bad):
                rep.violation("%s: %s" % (mode, bad[i]), json.loads(lines[i]), key=re.sub(r"[:<].*", "", bad[i]))
            for o in outs:
                os.unlink(o)
            if lines:
                sample = json.loads(lines[len(lines) // 2])
        if sample:
            rep.cov["samples"].append(sample)
