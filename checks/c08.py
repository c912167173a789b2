from vlib import *
import poolcheck


def main():
    rep = Report("C08")
    poolcheck.main(rep, 8000)
    return rep.finish()
