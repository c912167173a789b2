"""C09: buffer views."""
from vlib import *
import buffercheck


def main():
    rep = Report("C09")
    buffercheck.main(rep, {"view": (3000, 12000), "opt": (2500, 10000)}, model=True)
    return rep.finish()
