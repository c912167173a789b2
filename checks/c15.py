"""C15: transformations of statements."""
from vlib import *
import stmtcheck


def main():
    rep = Report("C15")
    stmtcheck.main(rep, "trans_driver", {
        "simp": (500, 3000), "all": (500, 3000), "deshadow": (200, 1500), "symbols": (200, 1500),
        "canon": (150, 1000), "free": (300, 1500), "fuse": (300, 1500),
    }, libs=("base", "runtime", "builder"), sources=["hooks.cc"], defs=["SLINKY_VERIFY"])
    return rep.finish()
