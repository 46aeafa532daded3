# technique: exhaustive enumeration of small systems, starts, limits and tolerances for every iterative solver, and of all scripts of linear solver outcomes for Newton, against a reference iteration
# note: all 2x2 systems over 6 values, 3x3 over 3 and symmetric 4x4 over one and two boxes and variables (quick: a fixed part); all scripts of up to 4 (thorough 5) linear solver outcomes out of 4
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from driver import Check
c = Check("C25", "exploration")
c.rule = "one solve is a transition; every judged return value, residual, solution and storage balance is an evaluation; traces are Newton runs replayed on the reference iteration"
c.assumptions = ["convergence is only demanded where it is guaranteed: symmetric positive matrices (bicgstab), exact preconditioners, diagonally dominant matrices (SOR with omega=1)", "the reported and the true residual may differ by 1e-11 of the terms they are made of"]
c.harness("plain", "c25_solvers.c", cflags=["-I/usr/include/suitesparse"])
c.finish()
