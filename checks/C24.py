# technique: exhaustive enumeration of small grids, variables, operators, orderings and subbox splittings, and of all small matrices over a set of values, against the operator table and exact integer elimination
# note: all 2x2 matrices over 6 values, all 3x3 over 3, all sparsity patterns of 4x4 (quick: a fixed part), for every direct solver
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from driver import Check
c = Check("C24", "exploration")
c.rule = "one matrix extraction, product or solve is a transition; every matrix entry, product component and residual is an evaluation"
c.assumptions = ["singular systems whose elimination is inexact may be solved with a small backward error", "the QR solver returns a least squares solution of singular systems"]
c.harness("plain", "c24_linalg.c", cflags=["-I/usr/include/suitesparse"])
c.finish()
