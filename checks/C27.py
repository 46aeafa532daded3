# technique: exhaustive enumeration of all single modes and unit vectors (which decides the linear maps) for all band limits and grid sizes up to a bound on the real transforms, and of all sets of output times and symmetries for ModeComputer
# note: lmax<=30 (thorough 60) for the tables, every coefficient up to lmax=10 for derivatives and orthonormality, all filters with n2<=20, n3<=16 and every lmshift; ModeComputer runs of the real program for all single modes, spins -2..2, all grid types
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from driver import Check
c = Check("C27", "exploration")
c.rule = "one transform or program run is a transition; a state is one mode or unit vector; every compared value is an evaluation"
c.assumptions = ["filter input with l above 2 n2/4 - 1 - lmax aliases and is only required to be projected", "ModeComputer grids resolve the modes in the data (n2 >= 4 lmax + 4, n3 > 2 lmax)"]
c.harness("plain", "c27_modes.c", timeout=60)
c.finish()
