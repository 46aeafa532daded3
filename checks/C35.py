# technique: exhaustive enumeration of values at every point, of all subsets of points of small grids, of runs (step at which a bad number appears, kind, guards, number of steps), of parameter sets and of monomials; exact counts, step counts, parameter values and Laplacians as oracle
# note: public entry points of NumberChecker, the exit guards, ParManipulator and addDissipation; one extra time step is allowed where the required time fits exactly
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from driver import Check
c = Check("C35", "exploration")
c.rule = "all small grids with bad numbers, all short runs, all choices of parameters within the bounds; non-trivial = one more input"
c.assumptions = []
c.harness("plain", "c35_guards.c")
c.finish()
