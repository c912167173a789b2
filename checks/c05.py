from vlib import *
import pipecheck


def main():
    rep = Report("C05")
    exe = pipecheck.build_driver()
    first, n = pipecheck.shards(4000)
    for i in range(0, n, 8):
        pipecheck.pipe_mode(rep, exe, "bufs", first + i, 700, 40)
    return rep.finish()
