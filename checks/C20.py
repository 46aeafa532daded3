# technique: exhaustive enumeration of coordinate systems, point numbers and all basis functions; every Cartesian derivative against the exact partial derivatives transformed with numerical derivatives of the coordinate map
# note: 23 settings of 13 coordinate systems (three AnsorgNS versions), stored and computed transformations, generic transformations and cubed-sphere layouts to the accuracy they resolve the map
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from driver import Check
c = Check("C20", "exploration")
c.rule = "every basis function at every grid point of every configuration; all tensor routines on every component; all other data compared after every call"
c.assumptions = ["points on coordinate singularities are excluded except for the axis treatment of AnsorgNS coordinates"]
c.harness("plain", "c20_cart.c")
c.finish()
