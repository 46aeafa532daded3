# technique: exhaustive enumeration of run requests (method, conditions, iterations, final time, changes during the run); each is one execution of the real program whose complete trace of phases, right hand side and condition calls is compared with the trace of a reference model
# note: 11 methods x 3 algebraic conditions x 1-3 boxes x time steps; all requested iteration counts -1..12 (40) and final times at, just around and between whole steps for 6 time steps; all changes of the request at iterations 0..3 to 0..5 steps
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from driver import Check
c = Check("C13", "model_checking")
c.rule = "all requests within the bounds; non-trivial = at least one time step"
c.assumptions = ["initial data satisfies the algebraic condition", "final times that are not exactly half way between two steps", "icn: conditions that are linear (they survive its average)"]
c.harness("plain", "c13_driver.c")
c.finish()
