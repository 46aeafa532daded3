# technique: exhaustive enumeration of bases, shapes, intervals, quadratic functions, places of the extremum and starting points, each run of the real search compared with the exact extremum
# note: 8 pairs of Chebyshev bases, 6 quadratics with and without mixed terms, 64 places, every grid point as start; lines through 36 points per direction; every grid point for the index functions
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from driver import Check
c = Check("C37", "exploration")
c.rule = "every quadratic within the bounds from every grid point of the box, every line and every grid point"
c.assumptions = ["at least three points per direction", "where the extremum lies outside of the box only the place, the value and the reported faces of the result are judged"]
c.harness("plain", "c37_extrema.c")
c.finish()
