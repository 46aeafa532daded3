# technique: exhaustive enumeration of options, polynomial states (every coefficient of every field) and metric lattices; at every grid point the right hand sides, constraints and conversions are compared with the equations written as index loops, and analytic solutions with their analytic time derivative
# note: BSSN, Z4, ADM constraints and scalar wave with all combinations of their options; Kerr-Schild and isotropic black holes and two wave solutions up to the discretisation error
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from driver import Check
c = Check("C32", "exploration")
c.rule = "all option combinations and states up to the bound; non-trivial = at least one equation evaluated"
c.assumptions = ["the derivatives of polynomials of degree 2 are exact on the grid (C17, C20)"]
c.harness("plain", "c32_physics.c")
c.finish()
