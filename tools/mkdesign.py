#!/usr/bin/env python3
"""Write the per-property part of DESIGN.md (below the line '## Properties') from the
checks, the properties, the seeds, KNOWN_FINDINGS and the notes below."""
import json, os, re, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
N = {
"C01": "Reference: an ordered list of (name, value) with the documented first-match, append and prefix rules. Values of numerical parameters go through the code's own arithmetic only where the property says so.",
"C02": "Reference reader written from the documentation. Texts without the documented form are enumerated too (memory errors count), but their result is not judged.",
"C03": "Every case is a complete run; the directory states before the run (outdir, _previous, both, none) are part of the enumeration.",
"C04": "Reference expansion of index symmetries; reflection signs of 2d indices are not judged (the source marks them as undecided).",
"C05": "Sequences and arrays of doubles as the model; all aliasing patterns of the up to three list arguments.",
"C06": "The model knows which variable is on in which box; memory is accounted for by exact counting of live blocks (mallinfo was noisy and was replaced).",
"C07": "Collections with explicit order; the sizes reported by the code are compared after every operation.",
"C08": "Writer and reader are separate processes; the reader starts from memory filled with a pattern so that what is not restored is seen.",
"C09": "ptrace is applied only to processes the harness itself starts. A state is the complete content of the output directory; states are merged by content. The oracle is the uninterrupted run: final files must be identical whatever kills happened.",
"C10": "Faults are injected at the write and close calls of the program (wrapped at link time) and as damaged files. The check accepts either a refusal with an error message or the previous checkpoint, never different data.",
"C11": "Byte comparison of all final files. Known finding analytic-restart0 (radiative_analytic restarted from iteration 0 has lost the far limit stored at time 0).",
"C12": "For each rooted tree an ODE whose exact solution has only that elementary differential; the methods' own tables are not read, the observable is the error at fixed step. An own algebraic condition (overwrites one variable from the old data and another variable) is registered for all methods, with scalar/tensor lists in both orders, all 15 subsets of changes and both persistence modes. Tables of the classical schemes are compared as reference for the non-autonomous ones.",
"C13": "Reference trace of phases, calls and times. The time of a call is compared exactly (times are sums of dt as documented).",
"C14": "Decision function against integer arithmetic on dyadic time steps; for other time steps the instants within rounding of a step are accepted either way. Known finding vtk-both.",
"C15": "Independent parsers of all formats; every byte of every file must be explained.",
"C16": "Long double basis functions are the oracle; transforms are linear (pairs are checked), so that the unit vectors decide all inputs.",
"C17": "As C16, with derivatives of the basis functions; finite differences against the exact polynomial stencils in extended precision.",
"C18": "As C16, with integrals and interpolated values. Spherical integrals need n2>=3.",
"C19": "Maps are differentiated numerically with high order differences; tolerances follow the observed conditioning. Known findings (inverse|second)|shifted: AnsorgNS variants that are shifted.",
"C20": "Exact partial derivatives of basis functions, transformed with the numerically differentiated map. Known finding second|shifted.",
"C21": "populate_bfaces is judged on the 13/26/32-box cubed spheres and on matching Cartesian boxes only; 38 boxes need n>=5. Points where several boxes meet may be in several patches; edge points may be covered by the patch of another face; a refusal with an error message is accepted with populate_bfaces only.",
"C22": "Cardinal functions (barycentric or trigonometric) and numerically computed normals. The outer face of compactified boxes (infinity) and places that are several points of the other box are not judged.",
"C23": "Where two selected conditions claim the same point either result is accepted. radiative_analytic needs a first call at time 0.",
"C24": "Dense table of the operator, exact integer elimination. SPQR returns status 0 for singular systems by design (least squares), which is accepted.",
"C25": "The residual is recomputed from the operator. Withdrawn because too strong: convergence guarantees for SOR and Jacobi-preconditioned bicgstab; the initial guess is clobbered by the set-up of matrices (documented behaviour). Newton_linesrch is excluded (its engine is a stub in this tree).",
"C26": "Contracts only (bracket, tolerance, status). Double roots, xacc=0, functions that are NaN inside the bracket are judged by the weaker part of the contract. In the alternative tree Newton is restricted to regular linear problems. Known finding newton-singular.",
"C27": "Associated Legendre functions in extended precision; accuracy at the poles is judged at theta=1e-6.",
"C28": "The OpenMP runtime is replaced (harness/vh_omp.h): threads are coroutines, every memory access is instrumented and enters a vector clock race detector. Schedules are orders of synchronisation operations, enumerated completely with at most 600 (thorough 20000) per loop; where a loop has more orders than that, its enumeration is bounded by it. False alarms repaired in the runtime: memory recycled by malloc is interposed; threadprivate data is kept per coroutine.",
"C29": "Reference trace of calls.",
"C30": "Reference scanners; strings lie in exactly sized buffers under AddressSanitizer.",
"C31": "The tools are compiled with ASan and UBSan; an independent parser of the checkpoint format. Out of bounds: parameter values that contain a section marker; the alignment of the columns of floatdiff.",
"C32": "The equations are written as index loops over 3x3 matrices, independent of the generated code; the states are polynomials of degree 2, for which all derivatives are exact. TermByTerm norms accept the documented or the symmetrised sums; Z4 with psi != 1 is not judged. Tolerances: Kerr-Schild Cartesian 5e-7, spherical 5e-3 (4x for M<1), isotropic 5e-8, waves 1e-9+60A^2, conversion 1e-9+20eps^2. The Kerr-Schild spin parameter is a.",
"C33": "Pairs of points are found by position; filters are compared with Fourier sums. Latitudes where N sin(theta) is an integer up to rounding are not judged.",
"C34": "Interpolation oracle: exact for data in the span of the basis. The first version used the shifted theta of SphericalDF, where the saved coordinate is the raw Y: an oracle error, corrected.",
"C35": "A value is bad if its bits say so (independent of isfinite) or it exceeds the limit. One extra time step is allowed where the required time fits exactly.",
"C36": "Boundary rows on Ansorg grids (also with the Cartesian boxes of 4ABphi_2xyz) are evaluated on a smooth function that vanishes at infinity, where they must vanish to truncation error. The residual is a polynomial of degree at most 3 in the unknowns, so that (4D(h)-D(2h))/3 of central differences is its exact derivative. Solvers that are not compiled in (templates, ZIB) end the program and are not enumerated; unpreconditioned bicgstab has no guarantee and is not enumerated.",
"C37": "Quadratics lie in the span of the bases, so that the stationary point is known exactly. The first version also demanded success from starts on the faces and judged stationarity of every result with a non-negative status: the functional continuation beyond the faces is a heuristic (documented as such in the code) which does not promise this, so these starts are only judged by place, value and named faces.",
}
P = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
seeds = {}
for m in sorted(glob.glob(os.path.join(V, "seeded/*/meta.json"))):
    seeds.setdefault(json.load(open(m))["property"], []).append(os.path.basename(os.path.dirname(m)))
kf = [l.strip() for l in open(os.path.join(V, "KNOWN_FINDINGS")) if l.startswith(("known:", "fixed:"))]
out = []
for p in P:
    i = p["id"]; src = open(os.path.join(V, "checks", i + ".py")).read()
    t = re.search(r"# technique: (.*)", src).group(1); n = re.search(r"# note: (.*)", src).group(1)
    hs = re.findall(r'c\.harness\("(\w+)", "([\w.]+)"', src)
    out.append("### %s %s\n" % (i, p["title"]))
    out.append("* Enumerated and decided by: %s." % t.rstrip("."))
    out.append("* Bounds: %s." % n.rstrip("."))
    out.append("* Oracle and limits: %s" % N[i])
    out.append("* Why tests cannot settle it: %s" % p["why_tests_cant"])
    out.append("* Harness: %s." % ", ".join("`harness/%s` (%s build)" % (h, v) for v, h in hs))
    s = seeds.get(i)
    out.append("* Planted changes caught: %s." % (", ".join(s) if s else "none planted as a seed; exercised by `tools/mutate.py`"))
    for l in kf:
        if "property=%s " % i in l:
            out.append("* %s" % (re.sub(r"property=\S+ ", "", l)))
    out.append("")
d = os.path.join(V, "DESIGN.md"); s = open(d).read()
a = s.index("## Properties"); b = s.find("\n## ", a + 5)
tail = s[b:] if b > 0 else "\n"
open(d, "w").write(s[:a] + "## Properties\n\n" + "\n".join(out) + tail)
