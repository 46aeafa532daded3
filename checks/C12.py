# technique: exhaustive enumeration of all rooted trees (order conditions) up to 7 (8) nodes and of bounded system/method-sequence spaces, each executed by the real evolve() and compared with the exact solution and with independently tabulated schemes
# note: 13 methods x all trees up to 7 (8) nodes x 5 steps x variable orders x 1-3 boxes; all 81 linear 2x2 systems with entries -1,0,1, three nonlinear systems; all ordered pairs (triples) of Runge-Kutta methods in one process
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from driver import Check
c = Check("C12", "exploration")
c.rule = "every rooted tree with up to 7 (thorough 8) nodes; non-trivial = one tree or system run through at least one full step"
c.assumptions = ["the right hand side does not depend on time explicitly (the interface has no time argument)", "agreement for all trees up to order p is equivalent to order p for every smooth autonomous system (Butcher)"]
c.harness("plain", "c12_integrators.c")
c.finish()
