# technique: exhaustive enumeration of all unit vectors (which decides the linear maps) for all small grid sizes, coordinate systems and box combinations, on the real functions, against an independent pairing of points by position and an independent Fourier sum
# note: every even n2,n3 up to 10 (thorough 12) for the double covering, odd sizes must be refused; filters of every spherical system for all n2<=7, n3<=12 (thorough 10, 16)
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from driver import Check
c = Check("C33", "exploration")
c.rule = "one call of a reset or filter function is a transition; a state is one input vector on one grid; every compared value is an evaluation"
c.assumptions = ["latitudes where N sin(theta) is an integer to rounding are not judged (except the equator)"]
c.harness("plain", "c33_double.c", timeout=200)
c.finish()
