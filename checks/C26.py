# technique: exhaustive enumeration of a finite family of functions, brackets, tolerances, iteration limits and small systems for every root finder, minimiser, solver and integrator, against their contracts
# note: 733 functions x all pairs of 9 bracket ends x 4 root finders; 536 functions x all triples for minima; all 2x2, 3x3 and 4x4 systems over a set of values; both the numerics and the NumericUtils library
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from driver import Check
c = Check("C26", "exploration")
c.rule = "one call of a numerical routine is a transition; every judged result is an evaluation; a state is one problem"
c.assumptions = ["Newton with bracketing may be off by the multiplicity of the root times the requested accuracy", "a line search Newton run may stop above its residual tolerance when the Newton step is below rounding level"]
c.harness("plain", "c26_numerics.c")
c.harness("plainalt", "c26_numerics.c", name="alt", cflags=["-DALT"])
c.finish()
