# technique: exhaustive enumeration of coordinate systems, point numbers, layouts and points; reported derivatives against high-order numerical derivatives of the maps, all ordered pairs of requests against fresh ones, and search results mapped back for points constructed in every box
# note: 23 settings of 13 coordinate systems (three AnsorgNS versions), four cubed-sphere layouts with and without surface variables, deformation and surface functions
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from driver import Check
c = Check("C19", "exploration")
c.rule = "every grid point and 125 further points of every box of every configuration; all ordered pairs of 24 requests per system; 343 points per box for the search"
c.assumptions = ["points on coordinate singularities are excluded", "the search is given a starting point in or near the right box where the code asks the caller for one"]
c.harness("plain", "c19_coords.c")
c.finish()
