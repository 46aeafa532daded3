# technique: exhaustive enumeration of all strings, arrays and directory trees up to a bounded size on the real helpers against reference scanners
# note: all strings of up to 7 (9) characters over 5 characters in exactly sized buffers (ASan), all small arrays, every floating point exponent, all small directory trees in a scratch directory
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from driver import Check
c = Check("C30", "exploration")
c.rule = "all strings up to the length bound over {a b = blank newline}, all array fillings, all tree shapes; non-trivial = a match exists"
c.assumptions = ["a parameter that is the last word of a stream has no value and is not judged"]
c.harness("asan", "c30_text.c")
c.finish()
