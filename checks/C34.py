# technique: exhaustive enumeration of pairs of grids (numbers of points, bases, limits, boxes), lists of variables and of parameters; a checkpoint written on one grid is read on the other and every point, every variable and the whole parameter data base are compared
# note: the program is linked under AddressSanitizer; both grids have the same number of boxes and the same coordinates
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from driver import Check
c = Check("C34", "exploration")
c.rule = "all pairs of grids, lists of variables and of parameters up to the bound; non-trivial = a checkpoint was read"
c.assumptions = ["interpolation is exact for functions in the span of the basis"]
c.harness("asan", "c34_other.c")
c.finish()
