# technique: exhaustive enumeration of registration/run histories and argument files against a reference call trace, on the real skeleton and the real main
# note: all histories up to 5 (6) operations over 3 phases x 3 functions, all argument files up to 3 (4) lines over 8 line kinds; each argument file is a complete run of the real program in a forked child
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from driver import Check
c = Check("C29", "model_checking")
c.assumptions = ["functions do not register other functions while they run"]
c.harness("asan", "c29_skeleton.c")
c.finish()
