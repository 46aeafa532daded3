# technique: exhaustive enumeration of all layouts x numbers of points x face options within bounds; audit of every face, patch and point of the resulting grids
# note: default algorithm on all layouts (cubed spheres 13/26/32/38 boxes, Cartesian box arrangements, shells, AnsorgNS), populate_bfaces on cubed spheres without the second shell and on matching Cartesian boxes; places found with the maps judged by C19
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from driver import Check
c = Check("C21", "exploration")
c.rule = "every layout x number of points (equal, different per direction, different per box) x face option; every face point, every patch, every pair of patches"
c.assumptions = ["the coordinate maps used by the oracle are those judged by C19", "layouts are those the repository's set-up routines and parameter files can make; programs that end with an error message while populate_bfaces sets the patches are not judged"]
c.harness("plain", "c21_bfaces.c", cflags=["-DVH_WRAP_EXIT"], extra=("-Wl,--wrap=exit,--wrap=abort",))
c.finish()
