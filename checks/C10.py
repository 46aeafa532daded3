# technique: exhaustive fault injection: every byte position of a full disk, every failing, short or partly lost write call and close, every truncation length of a checkpoint
# note: all file size limits and all truncation lengths of a checkpoint with two boxes, every write call with 4 kinds of fault, restarts of the whole program with checkpoints cut at every structural position (every third byte when thorough)
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from driver import Check
c = Check("C10", "exploration")
c.rule = "all fault positions and all truncation lengths; every case is non-trivial"
c.assumptions = ["a checkpoint that lacks only trailing white space is complete"]
c.harness("asan", "c10_damage.c", extra=("-Wl,--wrap=exit,--wrap=abort,--wrap=fopen",))
c.finish()
