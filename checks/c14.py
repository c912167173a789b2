"""C14: bounds and proofs about expressions are sound."""
from vlib import *
import exprcheck


def main():
    rep = Report("C14")
    exe = build("expr", ["expr_driver.cc", "hooks.cc"], defs=["SLINKY_VERIFY"])
    exprcheck.expr_mode(rep, exe, "bounds", *((300000, 2000) if THOROUGH else (12000, 150)))
    exprcheck.expr_mode(rep, exe, "interval", *((300000, 2000) if THOROUGH else (12000, 200)))
    rep.assumptions += ["|variables| <= 60 and no intermediate result beyond 2^22 (no overflow)"]
    return rep.finish()
