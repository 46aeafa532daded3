# technique: explicit state search over the disk states that kills can produce: the real program under a tracer is killed before every file system operation (its own and those of the commands it starts), distinct states are expanded again
# note: 6 configurations x every kill point, kill depth 2 (3 when thorough: 3 kills in a row), from every distinct disk state the run is completed and compared with the uninterrupted one
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from driver import Check
c = Check("C09", "model_checking")
c.assumptions = ["kills happen between system calls, completed system calls are durable", "a run that refuses to start and changes nothing is continued with --keep_previous"]
c.harness("plain", "c09_kill.c")
c.finish()
