from vlib import *
import pipecheck


def main():
    rep = Report("C02")
    exe = pipecheck.build_driver()
    first, n = pipecheck.shards(2000)
    for i in range(0, n, 8):
        pipecheck.pipe_mode(rep, exe, "mem", first + i, 2500, 40)
    return rep.finish()
