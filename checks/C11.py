# technique: exhaustive enumeration of the ways to cut an evolution into restarted runs, each a history of complete runs of the real program, final files compared byte by byte with the uninterrupted run
# note: all stop sets for 5 (6) iterations x 12 integrators x 3 restart modes x options for the test ODE, 4 iterations of the wave equation on two boxes with 5 boundary/filter settings
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from driver import Check
c = Check("C11", "exploration")
c.rule = "all non-empty sets of stop iterations up to the bound for every configuration; non-trivial = at least one restart"
c.assumptions = ["OMP_NUM_THREADS=1", "a checkpoint is written at the iteration where the run stops"]
c.harness("plain", "c11_restart.c")
c.finish()
