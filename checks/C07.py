# technique: breadth first enumeration of operation histories on the real integer, point and face lists against reference collections, under AddressSanitizer with exact accounting of allocated bytes
# note: all histories up to 5 (6) operations for integer and point lists, 6 (7) for faces; all neighbour graphs of 3 boxes with up to two faces each; all plane loops up to 4x4x4
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from driver import Check
c = Check("C07", "model_checking")
c.assumptions = ["a list is not removed from itself"]
c.harness("asan", "c07_lists.c")
c.finish()
