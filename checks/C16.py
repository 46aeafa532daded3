# technique: exhaustive enumeration of bases, point numbers, directions, transform types and planes on every unit vector (which decides a linear map for all inputs), pairs for linearity, against exact basis functions in extended precision
# note: five bases, n = 1..12, 17..66 (thorough 1..40 and up to 129), matrix, NUMREC_FFT, FFTW3 and default transforms, all directions, all planes; all 27 basis triples in three dimensions
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from driver import Check
c = Check("C16", "exploration")
c.rule = "every unit vector of every configuration within the bounds; all pairs of unit vectors for n<=6"
c.assumptions = ["ChebExtrema has at least two points, finite difference bases as many as their stencils need"]
c.harness("plain", "c16_transforms.c")
c.finish()
