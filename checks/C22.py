# technique: exhaustive enumeration of layouts, patches, points and single point perturbations (unit vectors, which decide the linear maps) of all interface conditions, against cardinal functions and numerically differentiated normals
# note: layouts of C21; every unit vector on the smaller layouts, one dense vector on the others; own flag, overridden flag and whole boxes
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from driver import Check
c = Check("C22", "exploration")
c.rule = "every layout x patch x (own flag, face with flag -1/0/1, all patches of the box) x dense data, and every single point of both boxes; normals and outward directions at every face point"
c.assumptions = ["the coordinate maps used by the oracle are those judged by C19, the patches those judged by C21", "layouts are those the repository's set-up routines and parameter files can make; programs that end with an error message with patches set by populate_bfaces are not judged; points whose place is several points of the other box (poles, axes) are judged only in interpolated patches"]
c.harness("plain", "c22_interbox.c", cflags=["-DVH_WRAP_EXIT"], extra=("-Wl,--wrap=exit,--wrap=abort",))
c.finish()
