# technique: breadth first enumeration of operation histories on the real variable lists and grids against plain sequences and arrays, under AddressSanitizer
# note: all histories of list operations up to 4 (6) operations, every arithmetic operation with every aliasing pattern, coefficient in {0,1,-1,0.5,-2}, storage and activity pattern, all histories of 2 (3) of them
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from driver import Check
c = Check("C05", "model_checking")
c.assumptions = ["values are chosen so that every exact result is representable; the sign of zero is not judged"]
c.harness("asan", "c05_varlists.c")
c.finish()
