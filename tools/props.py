"""Single source of properties.jsonl and MANIFEST.json (written by tools/gen.py)."""

PROPS = []
NA = []


def P(pid, title, statement, over, text, why, files, mech, technique, note):
    PROPS.append(dict(pid=pid, title=title, statement=statement, over=over, text=text, why=why, files=files,
                      mech=mech, technique=technique, note=note))


def na(pid, title, statement, over, text, why, files, mech, reason):
    P(pid, title, statement, over, text, why, files, mech, None, None)
    NA.append((pid, reason))


AI = ("abstract interpretation of the current source into a value graph, then comparison of algebraic normal forms "
      "with the stated law")
NOTE = ("Every solver path from the problem data to the assembled operator is interpreted on abstract values (no concrete "
        "numbers, no execution); each obligation is an identity of normal forms, valid for every grid, material, source and "
        "frequency. Trusted: the axioms given to numpy/scipy primitives in sa/nfeval.py, the real-arithmetic reading of "
        "floating point. Configurations (material and source variants, electric/magnetic content, DC/AC, method) are "
        "enumerated; constructs the analysis does not interpret are reported as undecided and never as violations.")
WHY = ("The existing tests run a handful of fixed workflows and compare six integral numbers with a 1e-4 tolerance; ")

SOLV = "pypeec/lib_solver/"
MATX = "pypeec/lib_matrix/"

P("C01", "Electric problem solves Ohm's and Kirchhoff's laws on the conductor network",
  "For every geometry, material and frequency, the equations being solved for the electric part are exactly the circuit laws of the voxel "
  "network: each face between two conducting voxels obeys (resistance + j*omega*inductance) * current = potential difference, where "
  "the resistance is the mean of the two voxel resistivities along the axis times length over cross-section, and each conducting "
  "voxel obeys current conservation including the source currents. Faces exist exactly between two adjacent voxels of the conductive "
  "domains, with the correct orientation.",
  ["inputs", "configurations"], "all voxel grids, domains, isotropic/anisotropic, lumped/distributed materials, frequencies (DC and AC)",
  WHY + "an error in an anisotropic, non-cubic-voxel, or mixed-material case does not show in them.",
  [SOLV + "problem_value.py", SOLV + "problem_geometry.py", SOLV + "equation_system.py", SOLV + "voxel_geometry.py"],
  [("resistance vectors", SOLV + "problem_value.py"), ("incidence matrix", SOLV + "voxel_geometry.py"),
   ("system operator", SOLV + "equation_system.py")],
  AI, NOTE)

P("C02", "Magnetic problem solves the magnetisation and flux-conservation laws",
  "For every geometry and magnetic material, each face between two magnetic voxels obeys the reluctance law built from 1/(mu0*chi) "
  "(complex susceptibility, mean of the two voxels, length over cross-section) against the difference of magnetic potentials, and each "
  "magnetic voxel obeys that its potential equals the potential operator applied to the net flux of the voxel. In AC the faces additionally "
  "carry the scaling by j*omega consistently with the rest of the system.",
  ["inputs", "configurations"], "all voxel grids, magnetic domains, isotropic/anisotropic, lumped/distributed materials, DC and AC",
  WHY + "few workflows contain magnetic materials and none an anisotropic one with non-cubic voxels.",
  [SOLV + "problem_value.py", SOLV + "problem_geometry.py", SOLV + "equation_system.py"],
  [("reluctance vectors", SOLV + "problem_value.py"), ("system operator", SOLV + "equation_system.py")], AI, NOTE)

P("C03", "Sources impose their terminal equations and are the only excitation",
  "For every set of sources, a current source of total current I and internal admittance Y imposes (per terminal voxel share) current plus "
  "admittance times potential equal to the prescribed value, and a voltage source of voltage V and internal impedance Z imposes potential "
  "plus impedance times current equal to the prescribed value. Lumped values are distributed over the terminal voxels such that the "
  "terminal as a whole has the prescribed value, distributed values are applied voxel by voxel, and the excitation contains nothing else.",
  ["inputs", "configurations"], "all source kinds (current/voltage), lumped and distributed values, zero or finite internal impedances, all terminals and problem contents",
  WHY + "sources with complex or distributed values, several terminals, or finite admittance are not varied.",
  [SOLV + "equation_system.py", SOLV + "problem_geometry.py", SOLV + "problem_value.py"],
  [("source vector and matrix", SOLV + "equation_system.py"), ("source values", SOLV + "problem_value.py")], AI, NOTE)

P("C07", "The preconditioner is consistent with the system it is used with",
  "For every problem the preconditioner is the exact block inverse of an approximation of the system: eliminating the face unknowns through "
  "their diagonal impedance, the Schur complement being factorized is the one of the same network, and the back-substitution "
  "uses the same diagonal, incidence and source blocks as the system operator. The solution of the linear system hence does not depend on the preconditioner.",
  ["inputs", "configurations"], "all problems (electric, magnetic, both), source kinds, DC and AC",
  WHY + "an inconsistent preconditioner still converges on small problems and only becomes visible as slow or stagnating convergence on others.",
  [SOLV + "equation_system.py"], [("preconditioner matrices and operators", SOLV + "equation_system.py")], AI, NOTE)

P("C04", "Long-range operators couple the right faces with the right kernel entries",
  "For every grid, the inductance, potential, and electric-magnetic coupling operators give, for each pair of faces or voxels, the kernel "
  "value at their exact distance (no wrap-around of the circulant embedding), between the right components (inductance only between "
  "parallel faces; coupling only between perpendicular directions, antisymmetric, odd along the sign axis), with the right scaling "
  "(mu0, face areas, voxel volume). Both directions of the electric-magnetic coupling use the same kernel and transposed face-to-voxel "
  "averages (reciprocity), in which each face counts half for each of its two voxels.",
  ["inputs", "configurations"], "all grids, domain combinations, electric/magnetic contents, split and unsplit multiplication",
  WHY + "the tests use small, mostly planar structures, and only the split multiplication.",
  [MATX + "multiply_fft.py", MATX + "matrix_multiply.py", SOLV + "system_matrix.py", SOLV + "equation_system.py"],
  [("circulant embedding and products", MATX + "multiply_fft.py"), ("operators and face-voxel averages", SOLV + "system_matrix.py")],
  AI, NOTE)

P("C05", "Computation methods and libraries are interchangeable",
  "The choice of the multiplication method (dense or FFT), of the FFT library and tensor splitting, of the factorization library, and of "
  "the iterative solver does not change the operators that are applied: each choice gives the same matrix entries (distance, component, sign, "
  "ordering), the same preconditioner blocks, and no library call overwrites an array that is still needed.",
  ["configurations", "inputs"], "all values of mult_type, fft library, matrix_split, factorization library, and solver, for all grids and voxel sets (including unsorted ones)",
  WHY + "they only use the FFT multiplication with split tensors, SciPy, and SuperLU.",
  [MATX + "multiply_fft.py", MATX + "multiply_direct.py", MATX + "fourier_transform.py", MATX + "matrix_factorization.py", MATX + "matrix_iterative.py"],
  [("dense multiplication", MATX + "multiply_direct.py"), ("FFT libraries", MATX + "fourier_transform.py"), ("factorization libraries", MATX + "matrix_factorization.py")],
  AI, NOTE)

P("C06", "Static problems are the zero-frequency case of the same equations",
  "The equations solved at zero frequency are the equations solved at frequency f with the frequency set to zero (same resistances, sources, incidence, couplings), the "
  "equations are linear in the frequency, and the extracted quantities follow one convention: complex values are peak phasors, such that AC losses and "
  "powers are half and AC energies a quarter of the squared-amplitude expression while DC uses one and a half, on the same fields.",
  ["inputs", "configurations"], "all problems, DC and AC",
  WHY + "the DC and AC branches are separate code paths which are never compared with each other.",
  [SOLV + "equation_system.py", SOLV + "extract_solution.py", SOLV + "extract_convergence.py"],
  [("frequency branches", SOLV + "equation_system.py"), ("phasor factors", SOLV + "extract_solution.py")], AI, NOTE)

P("C08", "Losses and stored energies are those of the solved network",
  "Electric losses are the sum over the faces of (real part of) resistance times squared current, magnetic losses are those of the complex reluctances, the "
  "stored energies are the quadratic forms of the same inductance and coupling operators as in the solved system, the totals are the sums of both kinds, and the losses "
  "of a material are the losses of its voxels (half of each adjacent face), such that the materials add up to the total.",
  ["inputs", "configurations"], "all problems, materials, frequencies",
  WHY + "an error which preserves the total (per material, anisotropic, complex reluctance) is not visible.",
  [SOLV + "extract_solution.py"], [("losses and energies", SOLV + "extract_solution.py")], AI, NOTE)

P("C09", "Fields are the physical densities at the voxels",
  "For every voxel, the current and flux densities are the mean of the two face values along each axis over the cross-section normal to this axis, the loss densities are "
  "half of the losses of its faces over the voxel volume, the divergences are the net face flow over the volume, the potentials are those of the solution, each "
  "aligned with the index set and the voxel centers stored alongside, and marked with the right category.",
  ["inputs", "configurations"], "all grids (including non-cubic voxels), index sets, DC and AC",
  WHY + "the fields are not compared at all.",
  [SOLV + "extract_solution.py", SOLV + "voxel_geometry.py"], [("densities", SOLV + "extract_solution.py"), ("voxel centers", SOLV + "voxel_geometry.py")], AI, NOTE)

P("C10", "Terminal quantities are those of the source",
  "For every source, the reported current is the sum of the currents of its terminal voxels, the voltage is the mean of their potentials, and the complex power is the sum over the "
  "voxels of potential times conjugated current of the same voxel; the total power is the sum over all sources, and the power used to judge the convergence is the same quantity.",
  ["inputs", "configurations"], "all sources (kinds, domain lists in any order), all index sets, DC and AC",
  WHY + "no test has a terminal with non-uniform potential and domains in different orders.",
  [SOLV + "extract_solution.py", SOLV + "extract_convergence.py", SOLV + "problem_geometry.py"],
  [("terminals", SOLV + "extract_solution.py"), ("terminal positions", SOLV + "problem_geometry.py")], AI, NOTE)

P("C11", "The field at the cloud points comes from all currents and magnetic charges",
  "At every point of the cloud the magnetic field is the Biot-Savart sum of all the electric currents (as voxel or as face elements, according to the option) plus the Coulomb "
  "field of all the magnetic charges, with the right orientation, scaling and distances; both options use the same currents.",
  ["inputs", "configurations"], "all points, grids, problem contents, both field methods",
  WHY + "the cloud field is not compared.",
  [SOLV + "extract_solution.py"], [("field", SOLV + "extract_solution.py")], AI, NOTE)

P("C12", "A solution is reported as converged only if it solves the coupled system",
  "The convergence flag of a sweep implies, unless the user disabled the corresponding test: that the residual of the complete coupled system at the returned solution is below max(relative tolerance "
  "times the norm of the excitation, absolute tolerance), that the iterative solver exited successfully or that the enabled power criterion was met, and that the "
  "condition numbers are below their tolerances. The segregated coupling iterates on the same coupled system (same operators, excitation minus coupling of the other domain, "
  "configured relaxation). The status of the solution implies the convergence of every sweep.",
  ["inputs", "configurations", "histories"], "all coupling methods, solver options, tolerances, sweeps",
  WHY + "all tested problems converge, so a flag which is always true is not noticed.",
  [SOLV + "equation_solver.py", "pypeec/lib_matrix/matrix_iterative.py", "pypeec/run/solver.py"],
  [("solver status", SOLV + "equation_solver.py"), ("sweep and solution status", "pypeec/run/solver.py")], AI, NOTE)

P("C13", "Each sweep is solved once, with its own parameters and initial solution",
  "For every set of sweeps whose dependencies form a forest, each sweep has exactly one result, stored under its own name, computed with its own frequency, material and source "
  "values, starting from the solution of the sweep it declares as initial solution (or from no other solution). This is independent of the declaration order and of the number of "
  "parallel jobs. Dependencies that cannot be satisfied (unknown or circular) are rejected before anything is solved.",
  ["inputs", "configurations", "schedules"], "all dependency forests, declaration orders, serial and parallel execution",
  WHY + "the sweeps of the examples are independent or form a single chain, and wrong initial solutions do not change the converged results.",
  [SOLV + "sweep_joblib.py", "pypeec/run/solver.py"], [("sweep tree", SOLV + "sweep_joblib.py"), ("sweep computation", "pypeec/run/solver.py")],
  "abstract interpretation for every dependency forest, provenance of the parameter symbols in each result",
  "Dependency forests are enumerated up to three (quick) or four (thorough) sweeps; the values are abstract. joblib.Parallel is modelled by its documented contract (results in the order of the "
  "submitted calls). Results of symbols reaching through uninterpreted constructs are still tracked (syntactic provenance).")

P("C14", "Results depend only on the inputs, not on earlier runs, workers, or chance",
  "The result of the solver is determined by its inputs and options. All process-wide state (selected libraries, transforms, options) is set from the options of the current run before it is used, in the "
  "main process and in each worker process; nothing left by a previous run in the same process, and no clock, randomness, environment variable, or process identity, influences the equations, "
  "the linear operators or the extracted quantities. Serial and parallel sweeps use the same options.",
  ["histories", "configurations", "schedules"], "all sequences of runs in a process, worker processes, libraries and options",
  WHY + "each test starts a fresh process, runs one problem, and uses the same libraries.",
  ["pypeec/run/solver.py", MATX + "fourier_transform.py", MATX + "multiply_fft.py", MATX + "matrix_factorization.py", SOLV + "sweep_joblib.py"],
  [("options of the libraries", MATX + "fourier_transform.py"), ("options per sweep", "pypeec/run/solver.py")],
  "abstract interpretation from an unknown process state, taint of the stale state and of non-deterministic calls in the results",
  "Process state is what the code rebinds with a global statement, and containers held by modules or default arguments. A state which is kept after a comparison with the current options (a cache) is reported as undecided, "
  "not as violation. The state inside third-party libraries (thread counts, plan caches) is not part of the analysis.")

P("C15", "Inputs and shared data are never modified",
  "The entry points (mesher, solver, viewer, plotter, and the utility functions) never modify the objects given by the caller (dictionaries, lists, arrays), and a sweep never modifies the "
  "data it shares with the other sweeps (geometry, operators, tolerances, initial solutions), such that serial and parallel execution, and repeated calls with the same objects, give the same results.",
  ["inputs", "histories", "schedules"], "all inputs, all entry points, all sweeps",
  WHY + "each input is used once and discarded, and the sweeps of the examples do not notice a modified array.",
  ["pypeec/run/solver.py", "pypeec/run/mesher.py", "pypeec/run/viewer.py", "pypeec/run/plotter.py", "pypeec/utils/fourier.py"],
  [("copies of the inputs", "pypeec/run/solver.py"), ("shared data of the sweeps", "pypeec/run/solver.py")],
  "abstract interpretation, alias analysis of all in-place operations (effects)",
  "Aliases are followed through names, containers, views (slices, transposes, reshapes) and copies of references; the effects of third-party functions on their arguments are limited to the output and overwrite arguments. "
  "An augmented assignment to a value of unknown type is not counted as a modification.")

P("C16", "Problems that cannot be solved are rejected before the solution",
  "The solver raises an error, before any linear system is solved, if and only if the problem is not well posed: no electric voxels, no source voxels, source voxels outside of the electric voxels, electric "
  "(or magnetic) materials sharing voxels, sources sharing voxels, a connected component with electric voxels but without source, an unknown domain, missing material or source values, or a number of "
  "values or components which does not match the number of voxels.",
  ["inputs"], "all problem definitions and voxel structures",
  WHY + "the examples only contain valid problems.",
  [SOLV + "problem_geometry.py", SOLV + "problem_value.py"],
  [("index checks", SOLV + "problem_geometry.py"), ("value checks", SOLV + "problem_value.py")],
  "abstract interpretation, path conditions of all raise statements, decided in a boolean algebra of index sets (Venn regions, uniqueness, array lengths)",
  "The problem definitions are enumerated (five domains; each material and source kind; lumped and distributed; isotropic and anisotropic); the index sets, their overlaps and the values are symbolic, so the "
  "equivalence holds for all of them. The connected components are a generic element of the graph. The rejection of malformed files by the schemas is a different property.")

P("C17", "Every configuration accepted by the validation is supported by the code",
  "For every configuration (geometry, problem, tolerance, viewer, plotter) accepted by its schema: (a) every entry the code reads is present (it is required by the schema for this type of object), whichever method, library, shape, layout or plot type is selected; (b) null, where the schema accepts it, is never indexed or used as a number; (c) every value of an enumerated option (libraries, methods, solvers, shapes, plot types, layouts) has an implementation: no error is raised because of the option values alone; (d) every entry of the schema has a description (no entry is accepted with any value) and influences something: its value reaches a result, a condition, or a library call.",
  ["input", "configuration"], "for all configurations accepted by the schemas",
  WHY + "The tests run 24 fixed configurations with the default methods; the schemas describe thousands of combinations of methods, libraries, shapes and plots, most of which are never executed by the tests.",
  ["pypeec/data/schema_geometry.yaml", "pypeec/data/schema_problem.yaml", "pypeec/data/schema_tolerance.yaml", "pypeec/data/schema_list_viewer.yaml", "pypeec/data/schema_list_plotter.yaml", "pypeec/run/solver.py", "pypeec/run/mesher.py"],
  [("check_data_tolerance", "pypeec/lib_check/check_data_format.py"), ("_get_factorize_sub", "pypeec/lib_matrix/matrix_factorization.py"), ("set_options", "pypeec/lib_matrix/fourier_transform.py"), ("_run_solver_init", "pypeec/run/solver.py"), ("_get_shape_single", "pypeec/lib_mesher/mesher_shape.py")],
  "abstract interpretation of each stage on a symbolic configuration; access paths resolved against the schema (required, null, enumerations, selectors)",
  "All paths of the four stages. Mesher, viewer and plotter: symbolic configuration (four plot modes). Solver: pairwise covering array of the nine method options, and an arbitrary problem for one of them (thorough: also all the methods together). Three color-bar options of the shared plot schema are not used by the viewer.")

P("C18", "Reducing and resampling keep the geometry of every domain",
  "Whatever the domains, the number and size of the voxels, and the resampling factors: removing the unused voxels keeps every voxel of every domain at the same physical position (the index is translated to the bounding box of the used voxels, the center is moved accordingly); resampling replaces every voxel exactly by the voxels of its subdivision (every subdivision once, inside the original voxel); no domain or voxel is lost, created, or attributed to another domain; number and size of the voxels, center, and size of the structure are consistent.",
  ["inputs"], "all voxel structures, domains, and resampling factors",
  WHY + "One example uses resampling, with the same factors and a single mesh; the geometry of the result is only seen through integral quantities.",
  ["pypeec/lib_mesher/voxel_resampling.py", "pypeec/run/mesher.py"],
  [("get_resampling", "pypeec/lib_mesher/voxel_resampling.py"), ("_run_resample_graph", "pypeec/run/mesher.py")],
  "abstract interpretation of the mesher; index algebra (arrays as functions of symbolic indices) compared as normal forms",
  "All four combinations of reduction and resampling, two symbolic domains, symbolic sizes and factors. The indices are those of a generic voxel, so that the identities hold for all voxels.")

P("C19", "The domains of the meshed structure are disjoint",
  "Whatever the (overlapping) domains produced by the meshers: the conflict rules are applied in the given order (the resolved domain loses exactly the voxels of the domain which is kept, nothing else is changed); the random resolution gives every voxel to exactly one of the domains which contained it (no voxel is lost or attributed to another domain); the mesher raises an error if and only if the returned domains still share voxels (or a domain of a rule does not exist); the options which are switched off have no effect.",
  ["inputs"], "all domains, rules, and random numbers",
  WHY + "The rules and the random resolution are used by one example each, with a fixed geometry; the path where the conflicts are not resolved is never reached.",
  ["pypeec/lib_mesher/voxel_conflict.py", "pypeec/run/mesher.py"],
  [("get_conflict", "pypeec/lib_mesher/voxel_conflict.py"), ("_run_resample_graph", "pypeec/run/mesher.py")],
  "abstract interpretation of the mesher; boolean algebra of index sets; element-wise index algebra for the random distribution; path conditions of the raise statements",
  "Three domains with arbitrary overlaps; four lists of rules; with and without random distribution. Rules which resolve a domain in favor of itself are not considered.")

P("C20", "The connected components and the integrity rules follow the faces of the voxels",
  "The graph returned by the mesher contains, for the final structure (after reduction, resampling and conflict resolution), exactly the connected components of the voxels of all the domains, where two voxels are connected if and only if they share a face (no connection across the borders of the structure, in any direction). The connection rules raise an error if and only if they are violated: connected groups share at least one component (are adjacent to a common group), disconnected groups share none; groups without voxels are ignored; unknown domains are rejected.",
  ["inputs"], "all voxel structures, domains, and rules",
  WHY + "The rules are only satisfied by the examples (the errors are never reached), and a wrong connection is invisible in most of the integral results.",
  ["pypeec/lib_mesher/voxel_integrity.py", "pypeec/run/mesher.py"],
  [("get_integrity", "pypeec/lib_mesher/voxel_integrity.py"), ("_run_resample_graph", "pypeec/run/mesher.py")],
  "abstract interpretation of the mesher; index algebra for the connection matrix; truth tables for the path conditions of the rules",
  "Symbolic structure with two domains (three combinations of reduction and resampling) for the graph; three domains in two or three groups, with and without empty groups, for the rules. The algorithm of SciPy for the connected components is trusted.")

P("C21", "The voxels of the domains are those covered by the described geometry",
  "For each type of mesher, a domain contains exactly the described voxels. Indices: the given indices, which must be unique and inside the structure. Images: the voxel (x, y, z) is in a domain if and only if a pixel at the column x and the row y (counted from the bottom) of one of the images of its layer has one of the colors of the domain (four channels); the layers are stacked upwards with their thicknesses; images of another size and colors without four values are rejected. STL files: the files are scaled, then moved by the offset; the bounding box (or the given box) is filled with round(box/size) voxels exactly; a domain contains the voxels touched by the points enclosed by one of its files and of no other file. Shapes: the layers are stacked upwards and centered (with the given shift); the shapes of a layer are the union of the added shapes minus the union of the subtracted shapes (pads, traces and polygons with their half widths) and only the shapes which name this layer; the voxel is selected if the rasterized shape covers the physical center of the voxel. The positions given by the center and the voxel size agree with the positions of the selected voxels.",
  ["inputs"], "all images, colors, indices, meshes, shapes, layers, and bounds",
  WHY + "The examples use symmetric or few geometries and compare integral results: a mirrored image, a layer offset, or a wrong file order is not seen for other inputs.",
  ["pypeec/lib_mesher/mesher_voxel.py", "pypeec/lib_mesher/mesher_png.py", "pypeec/lib_mesher/mesher_stl.py", "pypeec/lib_mesher/mesher_shape.py"],
  [("get_mesh", "pypeec/lib_mesher/mesher_png.py"), ("get_mesh", "pypeec/lib_mesher/mesher_shape.py"), ("get_mesh", "pypeec/lib_mesher/mesher_stl.py"), ("get_mesh", "pypeec/lib_mesher/mesher_voxel.py")],
  "abstract interpretation of the meshers; index algebra with canonical sets (value and condition of a generic voxel); uninterpreted geometry libraries; path conditions of the raise statements",
  "Two domains; two layers with symbolic thicknesses; one to two files per layer or domain; seven shapes (all types, added and subtracted); given and computed bounds. Pillow, Shapely, Rasterio and VTK are modelled by uninterpreted functions of the coordinates. The display mesh (reference) is not covered.")

P("C22", "Close points are removed; the summary describes the final structure",
  "With the check of the points, a point is kept if and only if, for every voxel of every domain, its distance to the center of the voxel is larger than the voxel size along at least one axis; an error is raised if and only if a complete cloud is requested and a point was removed. Without the check, the points are returned unchanged and no error is raised. The summary (numbers of voxels, of domains, of components and of points, areas, volumes, filling ratio) is that of the returned structure, after reduction, resampling and conflict resolution.",
  ["inputs"], "all structures, domains, and points",
  WHY + "The examples use one set of points each, all of which are valid; the numbers of the summary are not compared.",
  ["pypeec/lib_mesher/voxel_point.py", "pypeec/lib_mesher/voxel_summary.py", "pypeec/run/mesher.py"],
  [("get_point", "pypeec/lib_mesher/voxel_point.py"), ("get_summary", "pypeec/lib_mesher/voxel_summary.py")],
  "abstract interpretation of the mesher; element-wise evaluation of the masks and reductions; path conditions of the raise statements; normal forms",
  "Two domains with arbitrary voxels, arbitrary number of points; all the combinations of the options.")

P("C23", "The kernels of the operators are the integrals of 1/(4 pi r) between voxels",
  "The Green function of two voxels at the relative position (i, j, k) is the integral of 1/(4 pi r) over both volumes. The electric-magnetic coupling function along an axis n is the integral of the difference of 1/(4 pi r) at the two faces of the voxel, over the two other axes twice and over n once, divided by the areas of the two faces of the coupled currents, with the sign of the curl. If the distance between the centers, divided by the largest voxel dimension, is not larger than integral_simplify, the exact (analytical) integral is used: the second difference over the three axes of one primitive whose derivatives give 1/(4 pi r), finite for all positions. Otherwise the approximation with the distance of the centers can be used. Every voxel position has a value, at its place in the array (x fastest). The self coefficient of the preconditioner is the exact integral of a voxel with itself.",
  ["inputs"], "all voxel sizes, all relative positions, all thresholds",
  WHY + "The examples compare integral results of few voxel sizes: an error in one term of the primitive (30 terms), in the approximation of remote voxels, or in the choice between both is hidden by the tolerances or concerns a branch which is never used.",
  ["pypeec/lib_matrix/green_function.py", "pypeec/lib_solver/system_tensor.py"],
  [("get_green_ana", "pypeec/lib_matrix/green_function.py"), ("get_green_num", "pypeec/lib_matrix/green_function.py"), ("get_green_tensor", "pypeec/lib_solver/system_tensor.py"), ("get_coupling_tensor", "pypeec/lib_solver/system_tensor.py"), ("get_green_self", "pypeec/lib_solver/system_tensor.py")],
  "abstract interpretation to a value graph; kernel arrays as Laurent polynomials over function atoms at a generic voxel; algebraic identities of the derivatives (truncated expansions over a prime field)",
  "One generic voxel (i, j, k). The derivatives are compared as algebraic identities in x, y, z, at random points of a prime field (the extracted expression is evaluated, never the code). The jumps of the functions (branches of the inverse tangent) and rounding errors are not covered.")

P("C24", "Each entry point runs its stage on the checked inputs, or reports the failure",
  "A function of a stage working with files loads every input from the file of that name, runs the stage once with the inputs and the options in their places, and writes the complete result in the output file if and only if the run succeeded; the function working with data returns the result of the run. Every input is checked before it is used: the configurations against their schema (with types which accept NumPy numbers but no booleans), the voxel structures and solutions against their required entries, the tags of the plots against the entries they select, the plot options against the supported modes. On the command line, each command (and its alias) runs one action, each option gives the parameter of its name, the files are required, the other options have their documented default. The exit status is zero if and only if nothing failed. Every exception which is created is raised, and no handler of all exceptions hides a failure.",
  ["inputs", "configurations"], "all inputs, command lines, and failures",
  WHY + "The examples succeed: a failure which is hidden, a result which is written after a failure, an input which is not checked, and most of the options of the command line are never exercised.",
  ["pypeec/main.py", "pypeec/script.py", "pypeec/run/solver.py", "pypeec/run/mesher.py", "pypeec/run/viewer.py", "pypeec/run/plotter.py", "pypeec/lib_check/check_data_format.py", "pypeec/lib_check/check_data_options.py"],
  [("run_solver_file", "pypeec/main.py"), ("run_arguments", "pypeec/script.py"), ("check_data_tolerance", "pypeec/lib_check/check_data_format.py"), ("check_tag_list", "pypeec/lib_check/check_data_options.py")],
  "abstract interpretation of the entry points with symbolic files and arguments; data flow of the inputs; path conditions of the effects; exception flow (handlers, exit status); lint of dropped exceptions and handlers",
  "The stages are not inlined (they are the subject of the other properties). The behaviour of the parser of the arguments and of the file loaders is modelled by their interface.")

P("C25", "The numerical libraries are used with the options configured for them",
  "The transforms are computed by the configured library. Its number of workers or threads is the option n if n > 0, all the cores but |n+1| if n < 0, and one (no parallel execution) if n = 0; the alignment and the timeout of the cache of FFTW are the configured ones (no cache without timeout). The preconditioner is factorized by the configured library and multigrid method, solved with the configured tolerance and acceleration; the threads of PARDISO and MKL are set, before the factorization, from their own option (unchanged for null). The condition number of the electric (magnetic) matrix is the estimated norm of this matrix times the one of its inverse, with the configured accuracy and number of iterations. The sweeps are executed by the configured number of processes with the configured number of threads.",
  ["configurations"], "all the values of the options and numbers of cores",
  WHY + "The examples use one set of options. The results do not depend on most of these options (accuracy of the estimates, threads, caches), a wrong or exchanged option is not visible in a result, and several of the libraries are not installed.",
  ["pypeec/lib_matrix/fourier_transform.py", "pypeec/lib_matrix/matrix_factorization.py", "pypeec/lib_matrix/matrix_condition.py", "pypeec/lib_solver/sweep_joblib.py"],
  [("set_options", "pypeec/lib_matrix/fourier_transform.py"), ("set_options", "pypeec/lib_matrix/matrix_factorization.py"), ("get_condition_matrix", "pypeec/lib_matrix/matrix_condition.py"), ("get_run_sweep", "pypeec/lib_solver/sweep_joblib.py")],
  "abstract interpretation of the solver for each library; the arguments of the library calls as expressions of the options; path conditions of the calls",
  "The expressions of the numbers of threads (extracted from the source, piecewise linear) are evaluated for seven values of the option and two numbers of cores. The libraries are modelled by their interface.")

P("C26", "Every selected plot is drawn, with each value at its own voxel",
  "The viewer and the plotter draw one plot for each selected entry (all the entries without selection), for each selected sweep, in the order of the selection, with its own options and the data of its own sweep; in the mode save, each plot is written once in the folder as name_tag.png (tag: sweep_plot or plot) and closed; in the mode debug, it is closed without file; otherwise, it is shown. The grid has its center at c, with n cells of size d; the shown cells are all the voxels of the domains (viewer) or of the materials (plotter). Each voxel has its own data: number of the domain, number of the connected component, code of the material (electric 1, magnetic 2, both 3, current source 4, voltage source 5), and the variables of the solution at the voxels of their own type, undefined elsewhere. The layout norm shows the absolute value (length of the vector), phasor the real part of v exp(j phase), arrow the length and the direction of the latter; the value is multiplied with the scale, the values outside of the filter (for arrows, below the threshold relative to the largest) are removed, and the rest is clamped. The convergence plot shows the relative error of the active and reactive power of each iteration (initial guess included), the residuum plot the absolute values of the residuum. The domain, graph, mesh and material layouts show all the voxels with the colors of the options; the clip plane, grid, geometry and points are shown if enabled; an empty dataset is not drawn.",
  ["inputs", "configurations"], "all voxel structures, solutions, orders of the indices, selections, and plot options",
  WHY + "The examples run the plots without comparing any image or data: values at the wrong voxels, a wrong component, or a plot which is not saved are not seen.",
  ["pypeec/run/viewer.py", "pypeec/run/plotter.py", "pypeec/lib_plot/parse_plotter.py", "pypeec/lib_plot/parse_viewer.py", "pypeec/lib_plot/parse_voxel.py", "pypeec/lib_plot/manage_pyvista.py", "pypeec/lib_plot/manage_matplotlib.py", "pypeec/lib_plot/manage_plotgui.py"],
  [("set_voxel_scalar", "pypeec/lib_plot/parse_plotter.py"), ("set_data", "pypeec/lib_plot/parse_viewer.py"), ("get_plot_plotter", "pypeec/lib_plot/manage_pyvista.py"), ("PlotGui", "pypeec/lib_plot/manage_plotgui.py")],
  "abstract interpretation of the viewer and plotter; domain of voxel arrays (order, value of a generic voxel for each membership); data flow of the plotting calls, their options and path conditions",
  "Two sweeps, three plots, two domains, two connected components, one variable of each category; filter and clamp given or not; clip plane enabled or not. Pyvista, Matplotlib and VTK are modelled by their interface (cells extracted in ascending order); the rendering is trusted.")

P("C27", "The utilities give the impedance matrix, spectrum, and voxel indices",
  "Extraction: for each selected sweep and each winding, V = V_src - V_sink and I = (I_src - I_sink)/2, different frequencies are rejected. Symmetry: each permutation is applied to the windings of the currents and of the voltages together, the groups of permutations being combined one after the other, and the number of solutions is updated. Matrix: the least-square system is Z I = V for all the windings and solutions, with a symmetric impedance matrix; arrays with a wrong shape and an insufficient rank are rejected; R is the real part, L the imaginary part divided by w (undefined for DC), Q = w L/R, and the coupling factors are M_ij/sqrt(M_ii M_jj) for R and L. Spectrum: average F_0/N, harmonics 2 F_k/N, with the given number of frequencies; the inverse gives back the signal with the given number of samples; times k/(f n), frequencies k f. Voxel indices: x + nx y + nx ny z and its inverse; a coordinate or index out of its own range is rejected, no valid one is.",
  ["inputs"], "all solutions, windings, permutations, signals, and voxel structures",
  WHY + "No test calls these functions; a swapped coefficient is invisible for symmetric terminals, a wrong range is invisible for cubes.",
  ["pypeec/utils/matrix.py", "pypeec/utils/fourier.py", "pypeec/utils/voxel.py"],
  [("get_matrix", "pypeec/utils/matrix.py"), ("get_symmetry", "pypeec/utils/matrix.py"), ("get_extract", "pypeec/utils/matrix.py"), ("get_fft", "pypeec/utils/fourier.py"), ("get_idx_linear", "pypeec/utils/voxel.py")],
  "abstract interpretation of the utility functions; arrays of exact complex expressions; conditions of the errors at the limits of the ranges",
  "One to three windings, up to four solutions; least-square solution, rank, and FFT of NumPy are trusted (interface). The coordinates of a single generic voxel are evaluated.")

na("N01", "Numerical results agree with measured or analytical reference values",
   "For a physical structure with known inductance, resistance, or field, the computed values converge to the reference when the mesh is refined.",
   ["inputs"], "all structures and mesh resolutions",
   "the tests compare with stored values of the same code, not with physics.",
   [SOLV + "system_tensor.py"], [("discretisation", SOLV + "system_tensor.py")],
   "discretisation error and floating-point accuracy are runtime quantities; no static argument in reach bounds them.")

na("N02", "The iterative solver reaches its tolerance within the allowed iterations",
   "For every well-posed problem, the iterative solver converges to the tolerance within the configured number of iterations.",
   ["inputs", "configurations"], "all well-posed problems and solver options",
   "convergence depends on the spectrum of each system; the tests only contain problems which are known to converge.",
   ["pypeec/lib_matrix/matrix_iterative.py"], [("iterative solver", "pypeec/lib_matrix/matrix_iterative.py")],
   "termination of a Krylov method within n iterations depends on the numerical spectrum of the system, a runtime quantity.")
