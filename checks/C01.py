# technique: explicit-state breadth-first search of operation sequences on the real parameter code against a reference map
# note: every operation sequence up to the depth bound over a small overlapping alphabet, states merged only when database content and search start agree; each transition replays the whole history on the real functions (ASan build)
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from driver import Check
c = Check("C01", "model_checking")
c.assumptions = ["names and values from a finite alphabet of mutually overlapping words",
                 "depth bound 4 (quick) / 6 (thorough); merged states have equal database contents and start position"]
c.harness("asan", "c01_params.c")
c.finish()
