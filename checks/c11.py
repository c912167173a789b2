"""C11: iteration, copy, pad."""
from vlib import *
import buffercheck


def main():
    rep = Report("C11")
    buffercheck.main(rep, {"iter": (2500, 8000), "copy": (1200, 4000)})
    return rep.finish()
