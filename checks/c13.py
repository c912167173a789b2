"""C13: simplifying an expression never changes its value."""
from vlib import *
import exprcheck


def main():
    rep = Report("C13")
    exe = build("expr", ["expr_driver.cc", "hooks.cc"], defs=["SLINKY_VERIFY"])
    exprcheck.expr_mode(rep, exe, "simp", *((400000, 3000) if THOROUGH else (60000, 300)))
    rep.assumptions += ["|variables| <= 60 and no intermediate result beyond 2^22 (no overflow)",
                        "the driver evaluates every generated case and sends those that look wrong plus a sample to TLC, which decides"]
    return rep.finish()
