#!/usr/bin/env python3
"""writes /verif/properties.jsonl (single place where the properties are phrased)"""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=(), state=()):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=list(observe), state=[dict(name=a, meaning=b) for a, b in state],
                     hook_needed=None)))

M = "src/main/main/"; MM = "src/main/MemoryMan/"; U = "src/utility/"; PH = "src/physics/"

prop("C01", "The parameter database behaves as an ordered map of strings",
 "After any sequence of adding, setting, add-or-modifying and appending parameters, every query (as string, integer, real, list membership of a blank separated word, existence-tolerant query, by index, cached numerical and boolean value) answers what an ordered map holding the last assigned value would answer. Adding an existing parameter keeps its value and only replaces its description, moving the search start position never changes an answer, iterating over a value's entries yields exactly its blank separated words in order and then stops, and copies of the database are equal to and independent of the original.",
 ["histories", "inputs"], "all operation sequences up to a bounded depth over a small set of names and values that contain one another as substrings",
 "The suite only reads parameters that par files set once; it never explores orders of add/modify/append, values that contain each other, or copies.",
 [M+"parameters.c"], [("makeparameter / setparameter / findparameterindex / GetvFlag / NextEntry / copy_pdb", M+"parameters.c")],
 ["Gets/Geti/Getd/Getv/GetvLax/GetsInd/GetCachedNumValByParIndex"])

prop("C02", "Parameter files are read according to their documented syntax",
 "For every well formed parameter file, each 'name = word word ...' assignment is stored as name with the words joined by single blanks, independently of how blanks, tabs, line breaks and quotes separate the words and of blanks around '='. A '#' hides the rest of its line, a later assignment to the same name wins, an assignment without words stores the empty string, and reading never touches memory outside the file's text whatever the file's length.",
 ["inputs"], "all files up to a bounded length over the characters that matter to the syntax, and all file lengths around the reader's buffer growth",
 "The tests read a few dozen well formed par files.",
 [M+"parameters.c"], [("parse_parameter_file", M+"parameters.c")], ["GetnParameters/GetnameInd/GetsInd after reading"])

prop("C03", "Command line overrides and parameter iteration do what was asked",
 "Parameters given on the command line override those of the parameter file and all others keep their file value, and the output directory is the parameter file name without its extension (or what the file or command line says). With parameter iteration over lists of equal length on, run k of the program uses the k-th value of every iterated parameter and its own output directory named by those values, there are exactly as many runs as values, and without iteration there is exactly one run. An output directory that already exists becomes the previous one, replacing an older previous one, unless the program is told to keep the previous one.",
 ["inputs", "configurations"], "all combinations of a small set of command line options and of iteration lists up to a bounded number and length",
 "The suite starts every run with one par file and no options and never iterates parameters.",
 [M+"main.c", M+"parameters.c"], [("read_command_line / parse_command_line_options", M+"main.c"), ("iterate_parameters", M+"parameters.c")],
 ["parameter values and directories in each run"])

prop("C04", "Tensor variables get exactly their independent components",
 "For every tensor index specification (indices, symmetrised and antisymmetrised pairs and groups), the registered components are exactly the independent ones, in a fixed order, with contiguous indices, names formed from base name and component labels, and, for components without abbreviated two-index labels, the right sign under reflection in each coordinate. Looking up any registered name or index gives back the same variable, and attributes (far limit, fall-off, speed, constancy) set for one variable are reported for it and for no other.",
 ["inputs", "histories"], "all tensor index lists the program accepts, and all registration sequences up to a bounded depth",
 "Physics runs use a handful of index lists and would only notice a wrong component through accuracy bounds.",
 [M+"tensors.c", M+"variables.c"], [("tensorindexlist", M+"tensors.c"), ("AddVar / Ind / VarName / IndComponent0", M+"variables.c")],
 ["AddVar followed by lookups"])

prop("C05", "Variable lists behave as sequences and their arithmetic is exact",
 "After any sequence of pushes, drops and duplications of single variables, all components or other lists, a variable list holds exactly the variables a plain sequence would hold. Linear combination, copy, swap, average and difference of variable lists set every point of every active box of the target to the corresponding expression of the sources, touch nothing else, and a zero coefficient removes that source's influence entirely even if it holds NaN or has no data.",
 ["histories", "inputs"], "all list operation sequences up to a bounded depth; all coefficient and aliasing patterns over a small set of values",
 "Only a few coefficient patterns occur in the integrators the tests run, and values lost in inactive boxes or aliases are invisible there.",
 [M+"variables.c", MM+"storage.c"], [("vlpush/vlpushvl/vldrop/vldropn/vlduplicate", M+"variables.c"), ("vladd/vlcopy/vlswap/vlaverage/vlsubtract/vladdto", M+"variables.c")],
 ["list contents, all data arrays"])

prop("C06", "Grid storage follows enable and disable requests without corruption",
 "After any sequence of enabling, disabling, adding variables, copying grids and (de)activating boxes, exactly the requested variables have storage, newly enabled storage is zero, enabled data keeps its values, and copies hold equal but independent data. No sequence reads or writes freed or foreign memory, and all memory is returned when the grid is released.",
 ["histories"], "all operation sequences up to a bounded depth on small multi-box grids",
 "The suite performs one fixed sequence per run without memory checking.",
 [MM+"storage.c", MM+"grid.c", MM+"boxes.c"], [("enablevar/disablevar/enablevarlist/realloc_gridvariables/copy_grid", MM)],
 ["box data pointers and values"])

prop("C07", "Point lists, integer lists and face lists behave as collections",
 "After any sequence of add, drop, duplicate, merge and free operations, point lists, integer lists and the face lists of a box contain exactly the elements a reference collection contains, in the documented order, per box. Duplicates are equal and independent, removing a face renumbers the remaining ones, and no operation touches memory it does not own.",
 ["histories"], "all operation sequences up to a bounded depth over a few boxes, points and faces",
 "Tests build these lists once in one order.",
 [MM+"points.c", MM+"bface.c", MM+"intList.c"], [("AddToPointList/DropFromPointList/DuplicatePointList", MM+"points.c"), ("add_empty_bface/remove_bface", MM)],
 ["list contents"])

prop("C08", "A checkpoint restores the complete evolution state bit for bit",
 "Reading back a checkpoint restores, on a freshly built grid, every saved variable at every point of every box to the identical bit pattern, and the saved parameters, iteration count and time to what they were when the checkpoint was written. This holds for every selection of saved variables, for every parameter value without line breaks that is shorter than 8000 characters, for all grid shapes and for all floating point values including signed zeros, denormals, infinities and NaNs.",
 ["inputs", "configurations"], "all small multi-box grid shapes, variable selections and special values",
 "No test in the suite writes or reads a checkpoint.",
 [U+"checkpoint/checkpoint.c"], [("checkpoint_write / checkpoint_read", U+"checkpoint/checkpoint.c")], ["grid data after reading"])

prop("C09", "A kill at any moment never loses the last completed checkpoint",
 "If the program is killed between any two file system operations of a run that writes checkpoints, then starting it again with the same command continues from the most recently completed checkpoint or from a newer one, or it stops with an error and leaves that checkpoint in place so that starting with --keep_previous continues from it. It never continues from an older checkpoint or from the initial data once a checkpoint completed, and the final results equal those of the uninterrupted run.",
 ["crash_points", "histories"], "every file system operation of start, evolution, checkpoint and restart as a kill point, and kill pairs across two consecutive runs, for every checkpoint mode",
 "No test kills or restarts a run.",
 [U+"checkpoint/checkpoint.c", M+"main.c"], [("write to temporary file then rename; previous output directory handling", U+"checkpoint/checkpoint.c")],
 ["files left in the output directory and restart behaviour"])

prop("C10", "A damaged or incomplete checkpoint is never used or promoted silently",
 "If any write to a checkpoint fails or is short (for example because the disk is full), the previous good checkpoint is left in place. A checkpoint that ends early anywhere before its trailing white space makes the restart stop with an error instead of continuing with partly restored data.",
 ["fault_sequences", "crash_points"], "a failure at every write, flush, close and rename of a checkpoint, and truncation at every byte of a small checkpoint",
 "No test injects I/O faults.",
 [U+"checkpoint/checkpoint.c"], [("checkpoint_write_local / checkpoint_read_local", U+"checkpoint/checkpoint.c")], ["exit status, checkpoint file content"])

prop("C11", "A restarted evolution is identical to an uninterrupted one",
 "Stopping an evolution at any iteration with a checkpoint and restarting it gives, at every later iteration, variables bitwise equal to those of the run that never stopped, the same iteration numbers and times, and the same output rows. This holds for every time integrator, for checkpoints requested by iteration and by time, and for any number of restarts. Checkpoints are written exactly at the requested iterations and times (none of the initial data when the restart iteration is set beyond 0), and with --keep_previous a restart leaves the previous directory as it is.",
 ["histories", "configurations"], "all stop points and pairs of stop points of a bounded evolution, for every integrator",
 "No test restarts a run.",
 [U+"checkpoint/checkpoint.c", M+"main.c", U+"evolve"], [("checkpoint / evolve_grid", "src")], ["output files and final data"])

prop("C12", "Every time integrator integrates with its documented order",
 "For each selectable method (icn, euler and the Runge-Kutta family) one step of an arbitrary system of ordinary differential equations reproduces the exact solution's Taylor series through the method's order, so all order conditions hold, and the step equals the scheme defined by the method's published coefficients for linear, non-linear and coupled right hand sides. The result does not depend on the order of the variables, on the number of boxes or on previously used Runge-Kutta methods. A registered algebraic condition is imposed, with the old data as reference, on every stage a right hand side is evaluated on and on the new data; the requested changes (evolve_compute_change) are new minus old for scalars and tensor components in any order; with evolve_persist=no no auxiliary memory remains.",
 ["inputs", "configurations"], "all methods, all rooted trees up to the order (a basis for every right hand side), all step sizes in a small set, all orders of method changes between steps",
 "The tests check convergence of a single linear problem within a factor two.",
 [U+"evolve"], [("evolve_icn / evolve_euler / evolve_rk and Butcher tables", U+"evolve")], ["variables after a step"])

prop("C13", "The evolution driver calls its parts in the right order and with right times",
 "In every step each registered right hand side is evaluated on the current stage and writes only the target it was given, algebraic conditions are imposed on every intermediate and on the final state, previous states are kept unchanged during the step, and iteration count and time advance by exactly one and one time step. The run performs exactly the requested number of iterations or, if a final time is requested, the number of steps closest to it, and respects changes of these requests during the run, and analysis and output happen in every iteration in the documented order of program phases.",
 ["histories", "configurations"], "all methods and combinations of evolved systems, all small combinations of time step, final time and iteration limits",
 "Tests only inspect accuracy of final output.",
 [U+"evolve/evolve.c", M+"main.c", M+"skeleton.c"], [("evolve / evolve_grid / RunFun", "src")], ["call trace of registered functions"])

prop("C14", "Output happens exactly at the requested iterations and times",
 "For every output interval given in iterations or in time, output is requested exactly when the iteration is a multiple of the interval, respectively at the iteration whose time is closest to each multiple of the time interval (up to rounding), and never when the interval is negative or zero. Each requested output is written once per requested instant, independent of which other outputs are active.",
 ["inputs", "histories"], "all small combinations of iteration and time intervals, step sizes and iteration counts",
 "Tests fix one interval per run and compare some rows.",
 [U+"output"], [("timeforoutput", U+"output/output.c")], ["timeforoutput_* answers, rows in files"])

prop("C15", "Output files decode back to the grid data",
 "Every output format (0d norms and points, 1d lines, 2d planes, 3d text, binary, VTK, single and double precision) written for any variable contains for every selected box and point the variable's value and its coordinates at the format's precision, the current time, and nothing else. Byte-order conversion is exact and an involution.",
 ["inputs", "configurations"], "all formats, grid shapes and value classes within small bounds",
 "The tests compare only some text outputs to recorded error levels.",
 [U+"output", M+"endianIO.c"], [("output0d/1d/2d/3d", U+"output")], ["written files"])

prop("C16", "Spectral analysis and synthesis are exact inverses in every variant",
 "For every basis, number of points and direction, transforming grid values to coefficients and back returns the values, and coefficients to values and back returns the coefficients, up to rounding. Matrix, fast and plane-restricted variants of the transforms give the same numbers, work in place, and change only the lines or plane they were asked for.",
 ["inputs", "configurations"], "all bases, all point numbers up to a bound, all directions, planes and transform variants, on every unit vector (which decides the linear maps for all inputs)",
 "The suite uses a few resolutions and one transform setting.",
 [U+"Spectral"], [("spec_analysis1 / spec_synthesis1 / FFTs", U+"Spectral")], ["arrays after the call"])

prop("C17", "Spectral and finite difference derivatives are exact on their space",
 "For every basis and number of points, first and second derivatives are exact for every function the basis represents (with an even number of Fourier points the highest cosine counts as having vanishing derivatives), second derivatives agree with repeated first derivatives where the basis is closed under differentiation, and all routines that compute the same derivative agree. Finite difference bases differentiate polynomials exactly up to their order, with the boundary closure or periodicity they are named after.",
 ["inputs", "configurations"], "all bases, point numbers up to a bound, directions, intervals and all basis functions or monomials",
 "The tests differentiate a few smooth functions.",
 [U+"Spectral"], [("spec_Deriv1 / spec_Deriv2 / spec_allDerivs / initdiffmatrix / fd2_*", U+"Spectral")], ["derivative arrays"])

prop("C18", "Spectral integration, interpolation and filtering are exact",
 "For every basis, interpolation from coefficients at any point equals the represented function (and the grid value at grid points), in one, two or three dimensions. Definite, surface and volume integrals equal the exact integrals of every represented function, the integral up to each point is exact whenever the basis represents the antiderivative, and filtering removes exactly the requested coefficients and leaves all others unchanged.",
 ["inputs", "configurations"], "all bases, point numbers up to a bound and all basis functions; all cut-offs",
 "The tests sample a few smooth functions.",
 [U+"Spectral"], [("spec_interpolate / spec_Integral1 / spec_3dIntegral / spec_filter1", U+"Spectral")], ["returned numbers"])

prop("C19", "Coordinate transformations agree with their own derivatives and inverses",
 "For every coordinate system, the first and second derivatives of the coordinates it reports are those of the inverse of its own map, at every point of the grid away from coordinate singularities. None of this depends on earlier requests. Whenever finding the coordinates of a point given in Cartesian coordinates reports success, the returned box contains the returned coordinates and they map back to the point. It succeeds for every point that lies in some box of Cartesian or cubed sphere coordinates, and in other coordinates for points off the box faces if the caller's starting point is close to the solution; for points in no box it reports failure. The nearest grid point of a place is the nearest one of all, in a box, a plane of a box, a list of boxes and the grid.",
 ["inputs", "configurations"], "all coordinate systems, domains and parameter choices on a lattice of points",
 "The tests only see the transformations through a few smooth test functions.",
 [U+"Coordinates"], [("coordinate functions dX_dx, ddX_dxdx; findXYZ_of_xyz", U+"Coordinates")], ["stored dXdx variables and search results"])

prop("C20", "Cartesian derivatives are right in every coordinate system",
 "For every coordinate system, first, second and all partial derivatives in Cartesian coordinates of functions that the basis represents are exact up to rounding, mixed derivatives are symmetric, and the routines for scalars, vectors, symmetric tensors and their second derivatives agree component by component with the scalar routine. All other variables stay unchanged.",
 ["inputs", "configurations"], "all coordinate systems and all monomials up to a degree, all tensor types",
 "The tests use one or two smooth functions at low accuracy bounds.",
 [U+"Coordinates/cartesianDerivs.c", U+"Coordinates/transfDerivs.c"], [("cart_partials / FirstDerivsOf_* / FirstAndSecondDerivsOf_*", U+"Coordinates")], ["derivative variables"])

prop("C21", "Box faces tile the box boundaries and pair up",
 "On every supported multi-box layout each point on a face of a box that bounds the box's coordinate domain belongs to a face patch (points on an edge at least to one of a face meeting there); where several other boxes meet it may belong to several patches, one per box, otherwise to exactly one for that face. Each patch that touches another box refers to a patch of that box that refers back to it, exactly one side of each pair imposes the value and the other the normal derivative, and patches that do not touch always impose the value. For every point of a patch the stored coordinates (or the partner point) in the other box denote the same place inside that box.",
 ["configurations"], "all supported layouts and parameter combinations, all boxes, faces and points",
 "The tests solve elliptic problems on a few layouts and only see the final error.",
 [U+"Coordinates/Coordinates_set_bfaces.c", U+"Coordinates/setup_CubedSpheres.c", MM], [("Coordinates_set_bfaces", U+"Coordinates/Coordinates_set_bfaces.c")], ["face structures of the grid"])

prop("C22", "Interface conditions vanish exactly for continuous data and are linear",
 "For each face patch the interface condition written by the boundary module is the difference of the values (or of the outward normal derivatives) on both sides at the same place, so it vanishes for globally smooth data, detects any jump at any single point, and is linear in the data. Every point of the patch gets its condition, points that belong to no patch keep their value. Face normals point outward and have unit length.",
 ["inputs", "configurations"], "all supported layouts, all patches, all single point perturbations",
 "Elliptic tests only reveal an inconsistent condition through the final error.",
 [U+"boundary/BCs_from_bfaces.c"], [("FPsi_*interp_for_bface / set_interbox_BCs_for_bface / set_interbox_BC_onface", U+"boundary/BCs_from_bfaces.c")], ["FPsi arrays"])

prop("C23", "Outer and excision boundary conditions act only where and as selected",
 "For every selection of outer and inner boundary conditions, exactly the points of the selected boundary are changed and there the new value is what the condition prescribes: unchanged previous value for constant, outgoing radiation with the variable's own speed and far limit for radiative, zero normal derivative or extrapolation for excision (for integrators that pass right hand sides: the right hand side that has this effect, i.e. zero for constant). Where several selected conditions claim the same point one of them is applied. All other points keep the value the time step gave them.",
 ["configurations", "inputs"], "all selections of conditions, all coordinate systems, integrator calling modes and value patterns",
 "Only one or two selections are run by the tests.",
 [U+"boundary"], [("initialize_BoundaryPointLists / set_boundary", U+"boundary/boundary.c")], ["variable arrays after the call"])

prop("C24", "Sparse matrices and direct solvers represent the linear operator exactly",
 "The matrix extracted from any linear operator on grid variables, by rows or columns, in every ordering, for all variables or for one block, multiplies every vector to exactly what the operator gives, and its transpose and row-vector products are consistent. Each direct solver solves every non-singular system to rounding in all orderings. For singular systems the LU solvers never report success together with a wrong solution; the QR solver returns a least squares solution. The blocks of every splitting of a box into subboxes contain each point exactly once.",
 ["inputs", "configurations"], "all sparsity patterns of small matrices over a small value set, all small grid shapes, orderings and subbox splittings",
 "The elliptic tests use a few operators and only see the final residual.",
 [U+"LinAlg", U+"GridIterators"], [("SetMatrix* / *_times_vector / umfpack, spqr and lapack interfaces", U+"LinAlg")], ["matrix entries, products and solutions"])

prop("C25", "Iterative solvers and Newton report success only with a small residual",
 "Whenever a linear or non-linear grid solver reports success (a count within its iteration limit), the residual it reports is the true residual of the returned solution and is within the tolerance; a run that exhausts its limit above tolerance, or breaks down, returns a count above the limit or a negative value, and one that ends within tolerance is not reported as a failure. On systems where the method is guaranteed to converge it does so from any initial guess, Newton follows the Newton iteration for every sequence of outcomes of its linear solver, and temporary storage is released in every outcome.",
 ["inputs", "configurations"], "all small operators, right hand sides, initial guesses, iteration limits and preconditioners from a finite set, for every solver",
 "The tests run the solvers to convergence on a few problems.",
 [U+"GridIterators"], [("bicgstab / templates wrappers / WTsolver / SOR / Newton", U+"GridIterators")], ["return value, reported norm, solution"])

prop("C26", "Root finders, minimisers and ODE solvers satisfy their contracts",
 "Whenever a bracketing root finder or minimiser reports success for a function that is defined on the bracket, its result is a root (a sign change) or a minimum within the requested tolerance inside the given bracket, no function evaluation lies outside of it, and invalid brackets or exhausted iterations are reported as failures; searches for brackets return valid brackets and the function values that belong to them. A line-search Newton solver that reports success has reduced the residual below its tolerance or has a Newton step at rounding level, and it solves every regular linear system. LU decomposition satisfies PA=LU, detects zero rows and columns, and gives determinant and solution to rounding. ODE integration in either direction ends at the requested point within the accuracy or reports failure, and attenuation functions, allocation helpers, and one-dimensional integrals satisfy their definitions.",
 ["inputs"], "all functions from a finite family (polynomials with small integer coefficients and step-like shapes), all brackets on a lattice, all tolerances and iteration limits in a set",
 "The tests run one or two functions.",
 [U+"numerics", U+"NumericUtils"], [("rtbrent_brak / newton1d_brak / minbrent_brak / lu / newton_linesearch", U+"numerics")], ["return code and result"])

prop("C27", "Spherical harmonic expansions are exact on band-limited functions",
 "For every band limit, decomposing any band-limited real function on the sphere into spherical harmonic modes and recomposing it returns the function, modes are orthonormal, and derivative and filter operations act on modes as their definition says. Spin-weighted modes extracted from data that is a single harmonic are one for that mode and zero for all others.",
 ["inputs", "configurations"], "all band limits up to a bound and every single mode (which decides the linear maps)",
 "Tests print one comparison at a few sizes.",
 [U+"s2kit", U+"Spectral/SphericalHarmonics.c", PH+"ModeComputer"], [("Naive analysis/synthesis, set_YlmTabs, filters", U+"s2kit")], ["mode coefficients"])

prop("C28", "Results do not depend on how parallel loops are scheduled",
 "For every interleaving of the threads that execute a parallel section, all grid data, matrices and returned numbers are the same as with one thread; only sums that threads add up may differ by rounding. No two threads access the same memory location in a parallel section without synchronisation when one of them writes it.",
 ["schedules"], "all thread interleavings up to a preemption bound, and all assignments of iterations to threads, for each parallel section at small sizes",
 "The test suite runs with a single thread.",
 [M+"sgrid_main.h", U, PH], [("OpenMP pragmas with private copies of grids", "src")], ["data after the parallel section"])

prop("C29", "Registered functions run in order, once, in their phase",
 "For every sequence of registrations, running a program phase calls exactly the functions registered for that phase, once each, in registration order, with the grid it was given, functions added to a phase affect later runs of that phase only, and clearing removes all of them. A file of argument lines makes the program perform the run of each line that is neither empty nor starts with '#' exactly once, in order, with that line's own arguments.",
 ["histories", "inputs"], "all registration sequences up to a bounded depth, all argument files up to a bounded number of lines and words",
 "Every test uses the fixed registrations and one argument line.",
 [M+"skeleton.c", M+"main.c"], [("AddFun / RunFun / get_next_argument_line", M)], ["call trace"])

prop("C30", "Text, file and array helpers return exactly what their input contains",
 "Finding a label or a named parameter in a stream, reading a line, splitting text before and after a character or string, taking the word at a position, and splitting a command into words return exactly the matching text for every input, report absence when there is no match, leave the stream right after what was read and never access memory outside the given buffers. Minimum and maximum of up to three arrays come with the position of an entry that has that value, and a number is reported as finite exactly when it is neither infinite nor NaN. Copying or moving a file of any length preserves every byte, and removing a directory removes all of it and nothing outside it, also when it contains symbolic links or is given by an absolute path.",
 ["inputs"], "all strings up to a bounded length over the characters that matter, all small arrays over three values, all exponents, all small directory trees",
 "Tests do not call them directly.",
 [M+"utilities.c", U+"checkpoint/wolfio.c"], [("fgotonext / fgetparameter / fscanline / extrstr_before_after_EQ / sscan_word_at_p", U+"checkpoint/wolfio.c"), ("construct_argv / copy_file / remove_dir / min3_in_1d_array / finit", M+"utilities.c")],
 ["return values, files"])

prop("C31", "Checkpoint tools keep everything they were not asked to change",
 "The stand-alone tools that extract a variable from, modify or prune a checkpoint, and those that cut 3d output or compare numbers, produce files whose selected content is exactly that of the input and leave all the remaining content unchanged. A pruned or modified checkpoint is still readable by the program.",
 ["inputs", "configurations"], "all small checkpoints and selections within bounds",
 "The test suite never runs the tools.",
 ["utilities"], [("extractvar_from_checkpoint / modify_checkpoint / prune_checkpoint / sgrid3d_to_*", "utilities")], ["output files"])

prop("C32", "Physics modules implement their documented equations",
 "For every state and every combination of gauge choice and options, the right hand sides of the BSSN, Z4 and scalar wave systems, the Hamiltonian and momentum constraints, the trace of K and its time derivative are those of the equations documented in the modules (the .m files), at every grid point, for a first step (dt=0: the right hand side itself) and for an update pre+dt*rhs. Flat space is stationary, all constraints vanish for it, the systems run with their default parameters, and the algebraic conditions (unit determinant, vanishing trace) hold after they are imposed on any metric. Conversion from ADM to BSSN variables follows the definitions and converting back restores the ADM variables. Initial data of a single black hole (Kerr-Schild with any mass and spin parameter, isotropic), of gauge waves and of linear waves satisfy the constraints, black holes are stationary and waves move as the analytic solution up to the discretisation error; the ADM energy on spheres is that of the metric.",
 ["inputs", "configurations"], "all option combinations, every coefficient of every field of quadratic polynomial states, a lattice of 729 metrics, families of black holes and waves",
 "The tests run a few parameter sets and compare norms within a factor two.",
 [PH], [("BSSN_rhs / Z4secondO_rhs / ScalarWave_evolve / ADMconstraints / BSSN_enforce_AlgConstr / BSSN_startup / BSSNtoADM / SingleBH / TestID / ADMenergy_spheric_intergrand", PH)], ["right hand sides and constraints"])

prop("C33", "Double covered points agree after being reset and filters respect modes",
 "On spherical grids that cover each place twice, resetting the double covered points makes both copies equal to their average (or to the designated original), is idempotent and leaves data that already agrees unchanged. The pole filters remove exactly the azimuthal modes above the latitude-dependent limit and leave all lower modes unchanged.",
 ["inputs", "configurations"], "all even grid sizes up to a bound and every unit vector (which decides the linear maps)",
 "Tests see these operations only through the accuracy of full runs.",
 [U+"Coordinates/doubleCovering.c", U+"Coordinates/coordFilters.c"], [("reset_doubleCoveredPoints / coordinateDependentFilter", U+"Coordinates")], ["variable arrays"])

prop("C34", "Data and parameters of a checkpoint of another grid are taken over exactly",
 "Reading variables from a checkpoint that was written on a grid with other numbers of points, bases or limits sets each listed variable, in every box, to the interpolation of the saved data at the points of the current grid (exact for data in the span of the saved basis), and takes over exactly the listed parameters, with box limits and coordinate constants applied to coordinates and derivative matrices. All other variables, all other parameters, the time and the iteration stay as they were. Reading it into a second grid with its own parameter data base yields exactly the saved grid, data and parameters and leaves the first grid and its parameters unchanged.",
 ["inputs", "configurations", "histories"], "pairs of grids with the same number of boxes and the same kinds of coordinates; all combinations of sizes, bases and limits up to a bound, all lists of up to three variables and parameters",
 "No test reads the checkpoint of another grid.",
 [U+"checkpoint/read_other_checkpoints.c", U+"Spectral/interpolate.c"], [("interpolate_Var_from_grid2_to_grid1 / read_other checkpoints", U+"checkpoint/read_other_checkpoints.c")], ["data of both grids", "parameter data bases"])

prop("C35", "Bad numbers stop a run; common parameters and dissipation act as announced",
 "The number of NaN, infinite or (for the number checker) too large values in a variable or in a list is counted exactly, in all boxes and at all points, and a run with the exit guard makes no further step after the first one in which the watched variable has such a value, while a run without such values is not affected. A box parameter that refers to the common n, min, max or basis gets the common value, also after that changes, and no other parameter is changed; the automatic time step is the smallest one over all boxes and divides the required time. Dissipation adds the factor times the power of the time step times the Laplacian, and nothing if the factor is not positive.",
 ["inputs", "histories", "configurations"], "all subsets of points of small grids, all kinds of bad values, all short runs with every step at which the bad number appears, all pairs of parameters in all boxes, all monomials up to degree 3",
 "No test run contains a bad number.",
 [U+"NumberChecker/NumberChecker.c", PH+"/ADMvars/CheckIfFinite.c", U+"ParManipulator/ParManipulator.c", U+"evolve/addDissipation.c"], [("NumberChecker_CheckIfFinite / ExitIfNAN / ParManipulator_setPars / addDissipation", "src")], ["counts, steps made, parameters, data"])

prop("C36", "The Poisson modules solve the equations they state",
 "In the modules Poisson, Poisson2 and Poisson3 the residual at every inner point is that of the stated equations (Laplace Psi = rh1 and Laplace Chi = rh2; in Poisson3 Chi Psi_xx + Psi_yy + Chi^2 Psi_zz = rh1 and Chi_xx + Psi_x Chi_yy + Chi_zz = rh2), and at every outer boundary point the difference to the stated boundary value. The linearised operator used by Newton's method is exactly the derivative of the residual with respect to every unknown at every point, for every state, also in boundary conditions and conditions between boxes, and evaluating either leaves the unknowns unchanged. After the solve step the residual vanishes up to the tolerance and the solution is the known exact one up to the discretisation error, whichever linear solver is chosen; the error that the modules report is the difference to the exact solution.",
 ["inputs", "configurations"], "all pairs of monomials up to degree 2, every unknown at every point of small grids (one and two boxes, spherical shell, cubed spheres, Ansorg coordinates), all linear solvers compiled in",
 "The tests check error bounds of a few runs, where a wrong linearisation only costs iterations.",
 [PH+"/Poisson/Poisson.c", PH+"/Poisson2/Poisson2.c", PH+"/Poisson3/Poisson3.c", PH+"/Poisson3/Poisson3_BCs.c"], [("F_Poisson / J_Poisson / Poisson_solve / Poisson_analyze (and 2, 3)", PH)], ["residual, linearised operator and solution arrays"])

prop("C37", "Searches for extrema return the extremum, its value and honest status",
 "For every quadratic function on a box (with or without mixed terms, minimum, maximum or saddle) the search from any starting point inside the box finds the stationary point and the value there; where the search ends on faces of the box, the place returned is in the box, lies on the faces that the status names, and the value is that of the function at this place. Along any coordinate line in any direction the search finds the extremum of a function that is quadratic (or of fourth degree with a single extremum) in that direction, through grid points or not, and reports failure if there is none. The function itself is never changed. The functions that find the grid index of a coordinate return it for every grid point, within the stated tolerance, and -1 otherwise.",
 ["inputs", "configurations"], "all Chebyshev basis pairs with 3 to 5 points, 6 quadratics, 64 places of the extremum, every grid point as start; lines through 36 points per direction in 27 basis triples",
 "No test calls these functions.",
 [U+"Coordinates/find_extrema.c", U+"Coordinates/find_ijk.c"], [("box_extremum_of_F / box_extremum_of_F_in_dir / find_i_Of_X", U+"Coordinates")], ["place, value and status; grid index"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as fp:
        for p in P:
            fp.write(json.dumps(p) + "\n")
    print(len(P), "properties")
