# technique: exhaustive enumeration of all selections of boundary conditions on one- to three-box grids in every calling mode of the integrators, and of all integrators; every point of every variable compared with what the conditions prescribe
# note: all 256 subsets of the eight conditions with different lists of selected and constant variables; where several selected conditions claim the same point any one of them is accepted
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from driver import Check
c = Check("C23", "exploration")
c.rule = "every selection of conditions x layout x calling mode (icn, first and later Runge-Kutta stages, euler) x history of calls; every point of every variable"
c.assumptions = ["Cartesian and spectral derivatives used by the oracle are those judged by C17 and C20"]
c.harness("plain", "c23_bc.c")
c.finish()
