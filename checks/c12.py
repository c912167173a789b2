"""C12: the evaluator."""
from vlib import *
import stmtcheck


def main():
    rep = Report("C12")
    stmtcheck.main(rep, "stmt_driver", {"run": (3000, 12000), "expr": (3000, 30000)})
    return rep.finish()
