# technique: exhaustive enumeration of pairs of monomials, of all unit vectors (columns of the linearised operator) on small grids and of solvers; the equations evaluated on the monomials, exact differences of the residual and known solutions as oracle
# note: conditions between boxes enter through the linearisation and the solution (C22 decides them); residuals up to degree 3 in the unknowns
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from driver import Check
c = Check("C36", "exploration")
c.rule = "all pairs of monomials, all columns, all solvers on the listed grids; non-trivial = one residual or column compared"
c.assumptions = ["derivatives of polynomials of degree 2 are exact on the grid (C17, C20)"]
c.harness("plain", "c36_poisson.c")
c.finish()
