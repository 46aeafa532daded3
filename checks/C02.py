# technique: exhaustive enumeration of all parameter files up to a bounded length, run on the real reader and compared with a reference reader
# note: all texts of up to 7 (8) characters over 8 characters and of up to 6 (8) tokens that have the documented form, plus every length around the buffer growth; ASan build; texts that do not have the documented form are not judged
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from driver import Check
c = Check("C02", "exploration")
c.rule = "all strings up to the length bound over the alphabet; non-trivial = has the documented form with at least one assignment"
c.assumptions = ["alphabet a b = blank newline # quote tab; names are preceded by white space"]
c.harness("asan", "c02_parfile.c")
c.finish()
