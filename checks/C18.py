# technique: exhaustive enumeration of bases, point numbers, directions, intervals, transform types, cut-offs and basis functions (which decide a linear map for all inputs) at all grid points and a lattice of other points, against exact values and integrals in extended precision
# note: ChebExtrema, ChebZeros and Fourier, n = 1..9, 17..65 (thorough 1..25), all 27 basis triples in three dimensions, all filter cut-offs, spherical integrals for 3..10 (17) points in theta
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from driver import Check
c = Check("C18", "exploration")
c.rule = "every basis function of every configuration within the bounds, at every grid point and seven further points per direction"
c.assumptions = ["ChebExtrema has at least two points", "spherical integrals have at least three points in theta", "at most as many coefficients are filtered as there are"]
c.harness("plain", "c18_integrals.c")
c.finish()
