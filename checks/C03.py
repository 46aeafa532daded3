# technique: exhaustive enumeration of small command lines, iteration lists and directory states, each a complete run of the real program in a forked child
# note: 7 parameter file names x all option sequences up to 2-3 (4-5), all iteration lists up to 3 parameters x 4 values, all states of earlier output directories; records taken by probe functions inside the running program
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from driver import Check
c = Check("C03", "exploration")
c.rule = "all option sequences without repetition up to the bound, all iteration lists of equal length, all directory states; non-trivial = at least one option, iterated parameter or old directory"
c.assumptions = ["iterated lists have equal lengths", "the file system is a scratch directory"]
c.harness("asan", "c03_cmdline.c")
c.finish()
