from vlib import *
import pipecheck


def main():
    rep = Report("C03")
    exe = pipecheck.build_par()
    first, n = pipecheck.shards(3000)
    for i in range(0, n, 8):
        pipecheck.pipe_mode(rep, exe, "par", first + i, 1000, 24, per_model=8)
        pipecheck.pipe_mode(rep, exe, "parfail", first + i, 500, 10, per_model=5)
    return rep.finish()
