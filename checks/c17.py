"""C17: integer helpers are exact."""
from vlib import *
import arithcheck


def main():
    rep = Report("C17")
    arithcheck.main(rep)
    return rep.finish()
