from vlib import *
import pipecheck


def main():
    rep = Report("C01")
    exe = pipecheck.build_driver()
    first, n = pipecheck.shards(1000)
    for i in range(0, n, 8):
        pipecheck.pipe_mode(rep, exe, "run", first + i, 2500, 40)
    return rep.finish()
