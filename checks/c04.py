from vlib import *
import pipecheck


def main():
    rep = Report("C04")
    exe = pipecheck.build_driver()
    first, n = pipecheck.shards(3000)
    for i in range(0, n, 8):
        pipecheck.pipe_mode(rep, exe, "copy", first + i, 2000, 40)
    return rep.finish()
