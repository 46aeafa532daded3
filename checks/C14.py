# technique: exhaustive enumeration of output requests and iterations: the decision function against exact integer arithmetic, the complete set of output instants in the files of complete runs of the real program against the reference
# note: 12 time steps x output intervals 1/8..15 (50) time steps x 6 (13) iteration intervals x 600 (3000) iterations, both directions of time; all combinations of dimensions that are due for timeforoutput_*; all 1296 combinations of 6 timings for the four dimensions as full runs with varying lists, formats and boxes
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from driver import Check
c = Check("C14", "model_checking")
c.rule = "all requests within the bounds; non-trivial = at least one due output"
c.assumptions = ["time is iteration times time step", "a variable is listed at most once"]
c.harness("plain", "c14_when.c")
c.finish()
