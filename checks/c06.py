from vlib import *
import pipecheck


def main():
    rep = Report("C06")
    exe = pipecheck.build_driver()
    first, n = pipecheck.shards(5000)
    for i in range(0, n, 8):
        pipecheck.pipe_mode(rep, exe, "fail", first + i, 900, 40)
    return rep.finish()
