# technique: exhaustive enumeration of index specifications and of registration histories on the real code against a reference expansion
# note: all strings up to 5 (6) characters over 11 index characters plus every documented form; all histories up to 4 (5) of 20 operations; the reflection signs of 2d indices are not judged (the code marks them as undecided)
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from driver import Check
c = Check("C04", "model_checking")
c.assumptions = ["duplicates are made of complete tensors"]
c.harness("asan", "c04_tensors.c")
c.finish()
