"""Property -> (module, function, rule)."""

VG = "The solver is interpreted abstractly (every path, abstract values only) into a value graph; "

CHECKS = {
    "C01": ("solver", "electric", VG + "the electric rows of the assembled system operator (face rows, voxel rows) and the incidence matrix are compared, as algebraic normal forms, with the circuit laws of the voxel network. An obligation is one such identity."),
    "C02": ("solver", "magnetic", VG + "the magnetic rows of the assembled system operator and the incidence matrix are compared, as algebraic normal forms, with the reluctance and potential laws. An obligation is one such identity."),
    "C03": ("solver", "sources", VG + "the terminal rows of the system operator and the right-hand side are compared, as normal forms, with the terminal equations of each source kind."),
    "C07": ("solver", "precond", VG + "the preconditioner operator is decomposed (inverse of the factorized matrix, diagonal, couplings) and each block is compared with the corresponding block of the system operator."),
    "C04": ("couplings", "coupling", VG + "the long-range operators found in the rows of the assembled system are decomposed into entries (output block, input block, kernel component, coefficient); the entries, the circulant embedding (eight octants, signs), the face-to-voxel averages, and the reciprocity of both coupling directions are compared with the specification."),
    "C05": ("couplings", "methods", "For each multiplication method (direct, FFT), transform library (NumPy, SciPy, MKL, FFTW, CuPy; split and unsplit tensors), factorization library and iterative solver, the solver is interpreted abstractly with this option fixed; the entries of the long-range operators and the blocks of the preconditioner are compared with the one specification; the arrays handed to transforms which may overwrite their input must have no other use in the value graph."),
    "C06": ("converge", "dclimit", VG + "once with a positive symbolic frequency and once at zero frequency. The rows of the operator, the excitation, and the extracted quantities of both interpretations are compared as normal forms (zero-frequency part, linearity in the frequency, factor of the peak phasors)."),
    "C08": ("outputs", "power", VG + "the losses and energies (total, per material) found in the output are compared, as normal forms, with the quadratic forms of the resistances and operators of the assembled system."),
    "C09": ("outputs", "density", VG + "each field of the output is compared, as a normal form over the solution vector, with its definition (face averages, cross-sections, volumes, voxel centers), together with its category."),
    "C10": ("outputs", "terminal", VG + "the terminal voltages, currents and powers found in the output are compared, as normal forms, with their definitions; the selections of the terminal voxels in the voltage and the current vector must list the same voxels in the same order."),
    "C11": ("outputs", "cloud", VG + "the field at a generic point of the cloud is compared, as a normal form, with the Biot-Savart sum of the currents plus the Coulomb sum of the magnetic charges."),
    "C12": ("converge", "convergence", VG + "the convergence flags are decomposed into conjuncts; each must contain the residual test of the coupled system (compared as normal form with the assembled operator and excitation), the exit flags of the iterative solvers, the condition numbers, for each coupling method; one generic iteration of the segregated solver is compared with a relaxed block iteration of the same coupled system; the guards of the power criterion are checked at the point where it stops the solver."),
    "C13": ("flow", "sweeps", "The solver is interpreted abstractly for every dependency forest of the sweeps (up to three sweeps, four in the thorough tier; every declaration order, serial and parallel), with distinct symbols for the parameters of each sweep. The symbols reaching each result (through the operators, excitation, and initial guess of its linear system) are compared with the declared dependencies; unsatisfiable dependencies must reach a raise before any linear system is solved."),
    "C14": ("flow", "state", "The solver is interpreted abstractly from an unknown process state (every module-level name that is rebound at run time, in the main process and in each worker, has an arbitrary previous value). No previous value may reach the results or the linear operators; the options seen by the workers are compared with those of the main process; containers living in modules or default arguments must be unchanged or keyed by all their inputs; the results must not contain calls to sources of non-determinism."),
    "C15": ("flow", "purity", "Every entry point (mesher, solver, viewer, plotter, utility functions) is interpreted abstractly; every in-place operation (item, slice and attribute assignment, augmented assignment, deletion, mutating method, output argument, overwriting transform) is traced through views and containers to the object it modifies, which must not be an input of the entry point or an object shared by the sweeps. Input containers are compared before and after."),
    "C16": ("inputs", "validity", "The solver is interpreted abstractly for the problem kinds (five symbolic index sets). The path conditions of all raise statements that precede the linear system are translated into formulas over the emptiness of set combinations, duplicates, and array lengths; their disjunction is compared, in both directions, with the rules for a well-posed problem. An obligation is one rule or one raise statement."),
    "C17": ("options", "support", "Each stage is interpreted abstractly on an arbitrary configuration accepted by its schema (the schema files are loaded and every access is followed to the schema entry it reads; the conditions of the path select the alternatives). Every read must be guaranteed by the schema, every entry of the schema must be described and must reach a result, a condition or a library call, no path condition of a raise may be satisfied by valid option values alone, and null must not be used as a number. The solver is analysed for a pairwise covering array of its options."),
    "C18": ("mesher", "resampling", "The mesher is interpreted abstractly on a symbolic voxel structure; the index arrays are evaluated as functions of a generic voxel (coordinates, bounding box, subdivision) and compared, as normal forms, with the translated or subdivided voxel; number, size, center likewise."),
    "C19": ("mesher", "conflict", "The mesher is interpreted abstractly on three symbolic domains, for several lists of rules, with and without random distribution. The resulting sets are compared with the rules in a boolean algebra of index sets; the distribution is followed element-wise through the permutation and the selection of the unique values; the path conditions of the raise statements are compared, in both directions, with the condition that the returned domains share voxels."),
    "C20": ("mesher", "connectivity", "The mesher is interpreted abstractly. The entries of the connection matrix are evaluated for a generic voxel and compared with its six neighbours; the selection of the voxels, the labels and the components are followed element-wise; the path conditions of the raise statements are compared, by truth tables over the shared components (adjacent groups), with the rules."),
    "C21": ("voxelize", "voxelization", "Each mesher (indices, images, STL files, 2D shapes) is interpreted abstractly on a symbolic description; the index arrays are evaluated for a generic voxel and the sets (value and membership condition of the voxels) are compared, after a canonical renaming of the bound variables, with the sets given by the documented geometry (pixel, layer, enclosed mesh, rasterized shape at the physical center of the voxel). The calls to the geometry libraries are modelled by uninterpreted functions of the physical coordinates. The path conditions of the raise statements are compared with the invalid inputs."),
    "C22": ("voxelize", "points", "The mesher is interpreted abstractly with symbolic domains and points. The condition under which a generic point is kept is evaluated element-wise (loops over the points, masks, reductions) and compared with the distance to the centers of all the voxels; the path conditions of the raise statements are compared with its negation; the values of the summary are compared, as normal forms, with their definitions on the final structure."),
    "C23": ("kernels", "kernels", VG + "the arrays of the kernels found in the long-range operators are evaluated at a generic voxel, as polynomials over function atoms of the lengths d*(i+c). The terms are grouped by the offsets c: the groups must be the second differences of one primitive, whose derivatives are compared with 1/(4 pi r) as an algebraic identity; the remote values are compared with the approximation; the conditions must cover all distances and select the exact value up to the threshold."),
    "C24": ("entry", "entry", "The entry points (files, data, command line with every command and alias) are interpreted abstractly with symbolic files, arguments and options; the calls of the stages, loaders, writers and checks are events with their arguments and path conditions, which are compared with the specified flow; the exit status is evaluated for every combination of failed blocks; the schema reached by the validation of each input is read from the value graph; the syntax trees are searched for exceptions created and dropped and for handlers hiding failures."),
    "C25": ("library", "library", "The solver is interpreted abstractly for each library and coupling; the calls of the libraries (transforms, factorizations, solutions, estimates of norms, parallel pools) are events with their arguments, which are compared with the options of their name; the expressions of the numbers of threads and the path conditions are evaluated for all the signs of the options; the condition number must be the product of the norms of the same matrix and of its inverse (with its adjoint), for the electric and the magnetic matrix."),
    "C26": ("plots", "plots", "The viewer and the plotter are interpreted abstractly with symbolic data for each layout, selection of tags, and mode. The arrays of the voxels are evaluated with their order (sorted, concatenated, positions) and the value of a generic voxel for each membership in the index arrays; the drawn datasets (calls of the plotting library) are compared with the specified values, selections, and options; the opened, saved and closed plots are compared with the selection."),
    "C27": ("utilities", "utilities", "The utility functions are interpreted abstractly with symbolic terminals. The arrays of the impedance extraction (small number of windings and solutions) are evaluated as arrays of exact complex expressions: terminal voltages and currents, permutations, coefficients of the least-square system (compared with Z*I = V), resistances, inductances, quality and coupling factors. The spectrum, its inverse, and the voxel indices are evaluated at a generic position; the conditions of the errors are evaluated at the limits of the ranges."),
}
