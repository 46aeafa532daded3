# technique: exhaustive enumeration of output configurations on small two-box grids: every file written by the real output code is parsed completely and compared with the grid data, and whatever is left over is reported
# note: 27 basis triples x 6 shapes x 8 positions of lines and planes (thorough: x 17 formats); 17 3d formats x 5 value classes (signed zeros, denormals, huge values, infinities, NaN) x 8 positions x 3 component selections; spherical grids; two outputs per run; byte order functions for 1..16 byte numbers
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from driver import Check
c = Check("C15", "exploration")
c.rule = "all configurations within the bounds; every byte of every output file is accounted for"
c.assumptions = ["norms are judged for finite values that do not overflow, and in Cartesian and SphericalDF coordinates only", "text formats carry 16 (7) significant digits"]
c.harness("plain", "c15_output.c")
c.finish()
