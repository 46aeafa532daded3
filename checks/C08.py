# technique: exhaustive enumeration of checkpoint contents (values x positions, variable selections, grid shapes, parameters, times), each written by one process and read by another one built from scratch
# note: 29 special bit patterns at all positions, all 16x16 enabled sets x selections, all shapes up to 4x4x4 with 1-3 boxes, 22x22 parameter values; under AddressSanitizer
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from driver import Check
c = Check("C08", "exploration")
c.rule = "all values at all positions, all selections, all shapes up to the bound; non-trivial = at least one variable written"
c.assumptions = ["parameter values have less than 8000 characters and no line breaks"]
c.harness("asan", "c08_roundtrip.c")
c.finish()
