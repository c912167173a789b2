from vlib import *
import pipecheck


def main():
    rep = Report("C19")
    exe = pipecheck.build_driver()
    first, n = pipecheck.shards(6000)
    for i in range(0, n, 8):
        pipecheck.pipe_mode(rep, exe, "trace", first + i, 1500, 40)
    return rep.finish()
