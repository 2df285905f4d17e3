"""How each property is decided (text of DESIGN.md)."""
HOW = {
"C01": "The fields of the dates are symbolic integers. The oracle is an independent day count (days since year 0 by closed formula) in the harness; every Add*, +=, -, construction with "
       "out-of-range fields and comparison is compared with it. Each carry chain of NormalizeTime is a path.",
"C02": "Printers and the parser run with symbolic fields (digits become symbolic characters), and the parser runs on texts of symbolic characters; the oracle is a grammar written in the harness.",
"C04": "The real run loop is executed with the restart output attached, on an in-memory file store that keeps symbolic values; a second model is set up from the file through the code's own path and both are run to the end. "
       "All node values are compared as expressions. A linear solve with a symbolic matrix is an unknown function of the system.",
"C05": "The whole exchange runs on simulated processes. Which process runs next, which pending message matches, whether a test sees it and whether a send is buffered are symbolic choices; "
       "every schedule is a path, and the state after it must equal the one-process result. A deadlock or a read of an unsent buffer is a violation.",
"C06": "Node values are pseudo-random numbers times symbolic amplitudes; after the averaging each group of coincident nodes (found from positions, not from the connectivity) is compared with the mean of the copies, "
       "for winds on the sphere as 3D vectors built from the coordinate map itself.",
"C07": "The same symbolic initial state advances on one patch (or six) and on many; node values are compared by global index. Exactly-one-owner is checked from positions.",
"C08": "The mass before and after each part of a step is an exact polynomial in the amplitudes; the difference must vanish within rounding for all amplitudes.",
"C09": "Tracers start as q0 (symbolic) times density; after each part of a step tracer minus q0 times density must vanish at every node.",
"C10": "Integrals are compared as polynomials; variance and energy growth are quadratic forms in the amplitudes decided by the solver; the Laplacian on the plane is compared with the exact derivative of "
       "polynomials inside an element, and on the sphere with the eigenvalues of spherical harmonics (within the truncation error of the grid); fourth order diffusion is compared with two applications of the second order operator.",
"C11": "Node values with symbolic undershoots; the filter's branches are paths. Element totals, signs and upper bounds are asserted on each.",
"C12": "The departure from the reference state is symbolic; the factor is computed in the harness from the strength function of the test case at the node's height.",
"C13": "Panel coordinates, vector components and element indices are symbolic; claims are trigonometric identities decided after substitution t = tan and by the solver. The oracle is the gnomonic projection written "
       "as 3D rotations of one face.",
"C15": "Sample points, intervals and polynomial coefficients are symbolic; the results are compared with the exact integral or derivative.",
"C16": "Columns are symbolic values or polynomials with symbolic coefficients; claims are exactness, telescoping sums and quadratic forms (decomposed exactly as LDL^T).",
"C17": "Two symbolic column coordinates for monotonicity; level positions and weights of the grids built by the real set-up code.",
"C18": "The model's dynamics are replaced by a polynomial system covering every rooted tree up to order four, with each right-hand side assigned to the explicit or the implicit part in turn (through the virtual interfaces "
       "the schemes call); the step size is symbolic and the result is compared with the exact Taylor polynomial.",
"C21": "The implicit step runs on a grid where one column is symbolic; the banded solver is replaced by an unknown solution vector and the system it was given is recorded. The recorded right-hand side is compared with the "
       "tendencies of the explicit form, the matrix with the exact symbolic derivative of the right-hand side (replayed by fourth order differences), and conservation is the statement that area-weighted row sums vanish. "
       "Which unknown belongs to which value is found from the update itself, not from the layout.",
"C03": "The model's own run loop executes with step length, run length and output interval as symbolic integers (seconds, microseconds, minutes, hours or days); the time scheme, output managers and processes are replaced by "
       "recorders derived from the code's own base classes. The record is compared with a closed-form statement of when each thing falls due, in microseconds since year 0.",
"C19": "All instances hold different values, a part of them symbolic, and the coefficients are symbolic; the operations run, and every value of every instance is compared with the combination of the values before.",
"C20": "Fields with symbolic amplitudes on small grids; totals are recomputed node by node from physical quantities (winds as three-dimensional vectors built from the coordinate map, vertical velocity from the covariant component and the slope of the levels). "
       "Several processes run under the simulated message layer.",
"C25": "Inputs are symbolic reals; powers, logarithms and exponentials are kept as exact power products, so that round trips reduce to one by algebra and the solver settles the rest.",
"C28": "Winds are polynomials (plane), rotations about a symbolic axis and gradients of spherical harmonics (sphere), or node noise made continuous by the code's own averaging (integral identities); temperature and column weight are recomputed from the state.",
"C14": "Two models are set up by the real code, the second with terrain, rotation and friction moved by a symmetry; every node of the first is given noise with symbolic amplitudes and the same values (winds as three-dimensional vectors) go to the corresponding node of the second. "
       "Both advance and all node values are compared as expressions. Nodes correspond by position, so the panel numbering and connectivity are under test as well.",
"C29": "The state at rest or in uniform flow with symbolic depth, wind, density and terrain is advanced, and every value must equal the one before within rounding.",
"C30": "Fields are polynomials with symbolic coefficients (plane) or solid rotations and quadratic forms (sphere); the change over one explicit update, divided by the step, is compared at every node with the right-hand side of the equations, differentiated in closed form in the harness.",
"C22": "Fields are set to polynomials with symbolic coefficients, so that the right value at any point is known in closed form; the interpolation and the whole output manager run on them, at fixed output grids and at "
       "symbolic points and levels. The file mode runs the bundled netCDF classes over an in-memory store and compares every record, coordinate and attribute of every file; several processes run under the simulated "
       "message layer with symbolic schedules.",
}
SEEDED = {"restart_gap": "yes (after adding runs with patches of different size)", "vort_metric": "yes (check of the Laplacian on the sphere written alongside)", "filter_small": "yes (after adding runs with trace amounts)", "tracer_flux": "yes (after adding a second tracer to the runs)", "linf_edge": "yes (after adding symbolic values on interfaces)"}
