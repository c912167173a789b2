from vlib import *
import poolcheck


def main():
    rep = Report("C07")
    poolcheck.main(rep, 7000)
    return rep.finish()
