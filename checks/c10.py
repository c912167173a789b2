"""C10: strides and sizes."""
from vlib import *
import buffercheck


def main():
    rep = Report("C10")
    buffercheck.main(rep, {"stride": (5000, 20000)})
    return rep.finish()
