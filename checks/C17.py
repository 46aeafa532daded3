# technique: exhaustive enumeration of bases, point numbers, directions, intervals, transform types and derivative orders on every unit vector and every basis function (which decides a linear map for all inputs), against derivatives of exact basis functions and polynomial stencils in extended precision
# note: five bases, n = 1..10, 17..65 (thorough 1..30 and up to 96), matrix, NUMREC_FFT, FFTW3 transforms, conversion of grids to finite differences, all 125 basis triples and all six orders of second derivatives
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from driver import Check
c = Check("C17", "exploration")
c.rule = "every unit vector and every basis function of every configuration within the bounds; all pairs of unit vectors for n<=5"
c.assumptions = ["ChebExtrema has at least two points, finite difference bases as many as their stencils need", "the highest cosine of an even number of Fourier points counts as having vanishing derivatives"]
c.harness("plain", "c17_derivs.c")
c.finish()
