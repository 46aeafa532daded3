# technique: breadth first enumeration of histories of storage requests on real grids against a plain model, under AddressSanitizer with exact accounting of allocated bytes
# note: all histories up to 5 (6) of 31 operations on two grids of two boxes; complete copies for all basis patterns and face counts; boxes of all shapes with 1 to 4 points per direction; all subsets of the components of four tensors
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from driver import Check
c = Check("C06", "model_checking")
c.assumptions = ["data of boxes that are inactive while a grid is copied is not judged"]
c.harness("asan", "c06_storage.c")
c.finish()
