NOT_APPLICABLE = {}
PROPS = []
TESTS = "the repository's tests only check that the test programs run to completion; no value is compared"


def prop(id, title, statement, over, quant, files, mech, note, why=TESTS, observe=()):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, files=files, mech=mech, note=note, why=why,
                      observe=list(observe) or files[:1]))


A = "src/atm/"
B = "src/base/"
prop("C01", "Calendar arithmetic agrees with the calendar",
     "Adding any number of microseconds, seconds, days or months, or a time difference, to a date gives the date the chosen calendar (no-leap or Gregorian) "
     "prescribes, with every field in its valid range, however the fields of the date were supplied. Comparison orders dates by the instant they denote, and "
     "the difference of two dates added back gives the later date.",
     ["inputs"], "every date (years of each leap class), every month, day, second and microsecond; signed shifts up to the stated bounds",
     [B + "TimeObj.cpp", B + "TimeObj.h"], [("field normalisation", B + "TimeObj.cpp: NormalizeTime"), ("operators", B + "TimeObj.cpp: operator+=, operator-, Add*")],
     "bounded: shifts of at most 100 (quick) or 800 (thorough) days or 60 months; all field values symbolic",
     "a test samples a few dates; leap days, month ends and negative carries need every date")
prop("C02", "Times survive being written and read back",
     "A time written in any of its text forms and read back gives the same fields; a short text is read as a date, a period with units, or rejected with an error, and "
     "a period of n units is read as exactly that length. No malformed text is silently read as an ordinary date.",
     ["inputs"], "every field value for each text form; every text of up to 4 (quick) or 5 (thorough) characters; every count of units",
     [B + "TimeObj.cpp", A + "TempestInitialize.h"], [("parser", B + "TimeObj.cpp: FromFormattedString"), ("printers", B + "TimeObj.cpp: ToString, ToDateString, ToShortString")],
     "bounded: one group of fields symbolic at a time; free text up to 4 characters (5 thorough)",
     "malformed and boundary texts are too many to list; each must be read in exactly one way")
prop("C05", "Exchange results do not depend on message timing",
     "Advancing the model on several processes gives the values a single process gives, whatever order processes run in, messages arrive in, and whether sends are buffered. "
     "No schedule deadlocks.",
     ["schedules", "configurations"], "2 to 6 processes; every choice of the first scheduling, arrival and matching decisions",
     [A + "Connectivity.cpp", A + "Grid.cpp"], [("halo exchange", A + "Connectivity.cpp: Pack, Send, Receive, Unpack"), ("exchange driver", A + "Grid.cpp: Exchange")],
     "bounded: 5-12 symbolic schedule decisions, then round-robin; simulated MPI (stub) with eager or rendezvous sends",
     "a test run sees one message order on one process")
prop("C06", "Fields are continuous across elements, patches and panels",
     "After the averaging across element edges all copies of a node hold the same value, which is the mean of the copies before (for winds on the sphere, of the physical vector); "
     "the integral of every scalar and tracer is unchanged, and averaging a second time changes nothing.",
     ["inputs", "configurations"], "every value of the element copies (linear span of the noise fields) on plane and cubed-sphere grids of several orders and layouts",
     [A + "GridCSGLL.cpp", A + "GridCartesianGLL.cpp", A + "Connectivity.cpp", A + "GridPatchCSGLL.cpp"],
     [("direct stiffness summation", A + "GridCSGLL.cpp: ApplyDSS"), ("halo velocity transform", A + "GridPatchCSGLL.cpp: TransformHaloVelocities")],
     "bounded: grids of up to 3x3 elements per panel, order 3-5, up to 54 patches; noise fields with 2 symbolic amplitudes")
prop("C07", "Results do not depend on how the domain is cut into patches",
     "Every node belongs to exactly one patch, and advancing the model with the domain cut into any supported number of patches gives the same value at every node.",
     ["configurations", "inputs"], "patch layouts of the default distribution; all values of the symbolic initial amplitudes",
     [A + "Grid.cpp", A + "GridCSGLL.cpp", A + "GridCartesianGLL.cpp", A + "Connectivity.cpp", A + "GridPatch.cpp"],
     [("layout", A + "GridCSGLL.cpp: ApplyDefaultPatchLayout"), ("neighbours", A + "Grid.cpp: InitializeConnectivity"), ("halo exchange", A + "Connectivity.cpp")],
     "bounded: layouts of 1-4 strips (plane) and 6, 24, 54 patches (sphere), order 3-4")
prop("C08", "Total mass is conserved",
     "On a doubly periodic plane or on the sphere, the explicit horizontal dynamics, the explicit vertical dynamics, the averaging across elements and, for shallow water, a whole time step leave the total mass and the "
     "total mass of every tracer unchanged up to rounding, over any topography.",
     ["inputs", "configurations"], "every value of the symbolic amplitudes of the initial state, all listed grids and operators",
     [A + "HorizontalDynamicsFEM.cpp", A + "HorizontalDynamicsFEMV2.cpp", A + "VerticalDynamicsFEM.cpp", A + "VerticalDynamicsFEMV2.cpp", A + "GridGLL.cpp"],
     [("flux form weak divergence", A + "HorizontalDynamicsFEM.cpp: StepShallowWater, StepNonhydrostaticPrimitive"), ("vertical fluxes", A + "VerticalDynamicsFEM.cpp: StepExplicit")],
     "bounded: small grids (up to 3x3 elements, 2-4 levels), 1-2 symbolic amplitudes; tolerance 1e-11 of the total")
prop("C09", "A uniform mixing ratio stays uniform",
     "If a tracer's density starts as a constant multiple of the air density, it is still the same multiple after the horizontal dynamics, the explicit vertical dynamics and the averaging across elements.",
     ["inputs", "configurations"], "every value of the constant and of the amplitudes of the flow",
     [A + "HorizontalDynamicsFEM.cpp", A + "HorizontalDynamicsFEMV2.cpp", A + "VerticalDynamicsFEM.cpp", A + "VerticalDynamicsFEMV2.cpp"],
     [("tracer fluxes", A + "HorizontalDynamicsFEM.cpp: StepNonhydrostaticPrimitive"), ("vertical tracer transport", A + "VerticalDynamicsFEM.cpp: StepExplicit")],
     "bounded: 2x2 elements, 2 levels, one symbolic amplitude and a symbolic mixing ratio")
prop("C10", "Horizontal diffusion conserves, smooths and ignores uniform fields",
     "Viscosity and hyperviscosity keep the integral of every scalar and tracer, leave horizontally uniform fields alone, and never increase the variance of a scalar or the energy of the wind. "
     "Viscosity adds the coefficient times the Laplacian (for winds, divergence and vorticity parts with their own coefficients), and fourth order hyperviscosity subtracts the scaled coefficient times the Laplacian applied twice.",
     ["inputs", "configurations"], "every amplitude of the noise fields, every cubic polynomial inside an element, every uniform value",
     [A + "HorizontalDynamicsFEM.cpp", A + "HorizontalDynamicsFEMV2.cpp", A + "GridPatchGLL.cpp"],
     [("scalar operator", A + "HorizontalDynamicsFEM.cpp: ApplyScalarHyperdiffusion"), ("wind operator", A + "HorizontalDynamicsFEM.cpp: ApplyVectorHyperdiffusion"), ("sub-cycle", A + "HorizontalDynamicsFEM.cpp: StepAfterSubCycle")],
     "bounded: up to 3x3 elements, fixed coefficients, 1-8 symbolic amplitudes")
prop("C11", "The tracer filter keeps tracers non-negative and conserves them",
     "The positive definite filter leaves no negative tracer value, keeps the tracer mass of every element, changes nothing where no value is negative, and only reduces positive values; "
     "after the diffusion step that applies it no tracer value is negative.",
     ["inputs", "configurations"], "every tracer field in the span of the noise fields with non-negative element mass",
     [A + "HorizontalDynamicsFEM.cpp", A + "HorizontalDynamicsFEMV2.cpp"], [("filter", A + "HorizontalDynamicsFEM.cpp: FilterNegativeTracers")],
     "bounded: element order 3-4, 2 levels, 1-2 symbolic amplitudes reaching every sign pattern of the undershooting nodes")
prop("C12", "The Rayleigh sponge relaxes towards the reference state",
     "In the sponge layer the departure of wind, temperature variable and vertical velocity from the reference state shrinks by the backward Euler factor of the prescribed strength, up to and including the model top, "
     "and below it nothing changes; density and tracers are never changed.",
     ["inputs", "configurations"], "every amplitude of the state, plane and sphere, staggerings, with topography",
     [A + "HorizontalDynamicsFEM.cpp", A + "HorizontalDynamicsFEMV2.cpp", A + "GridPatchCartesianGLL.cpp", A + "GridPatchCSGLL.cpp"],
     [("friction", A + "HorizontalDynamicsFEM.cpp: ApplyRayleighFriction"), ("strength", A + "GridPatchCartesianGLL.cpp: EvaluateTestCase")],
     "bounded: 2x2 elements, 3 levels, 2 symbolic amplitudes, one strength profile and time step")
prop("C18", "Time integrators reach their order and carry the whole state",
     "Each time stepping scheme integrates the model equations to its documented order: after one or several steps the wind, temperature, density and tracer fields agree with the exact solution's expansion in the step "
     "size up to that order, however the tendencies are divided between the explicit and the implicit part, and the result depends on nothing but the state at the start of the step.",
     ["inputs", "configurations"], "every step size in a range, every polynomial system forming the order conditions up to four coupled stages",
     ["src/atm/TimestepSchemeStrang.cpp", A + "TimestepSchemeERK.cpp", A + "TimestepSchemeARS222.cpp", A + "TimestepSchemeARS343.cpp", A + "TimestepSchemeARS443.cpp", A + "TimestepSchemeARK232.cpp", A + "TimestepSchemeGARK2.cpp", A + "TimestepSchemeSSP3332.cpp"],
     [("stage combination", "src/atm/TimestepScheme*.cpp: Step"), ("state instances", A + "GridPatch.cpp: LinearCombineData, CopyData")],
     "bounded: rooted trees up to order 4, all explicit/implicit colourings, step sizes in [0, 0.5], up to 3 steps")
prop("C15", "Quadrature and interpolation tools are exact",
     "The Gauss and Gauss-Lobatto rules integrate every polynomial of their degree exactly on any interval; Legendre polynomials, their derivatives and roots satisfy their defining relations. "
     "Polynomial interpolation and its first three derivatives, the flux correction functions and the low order interpolation helpers reproduce every polynomial of their degree at every sample point.",
     ["inputs"], "every polynomial, interval and sample point",
     [B + "GaussQuadrature.cpp", B + "GaussLobattoQuadrature.cpp", B + "LegendrePolynomial.cpp", B + "PolynomialInterp.cpp", B + "MathHelper.cpp", A + "FluxCorrectionFunction.cpp", A + "GridSpacing.cpp"],
     [("rules", B + "GaussQuadrature.cpp: GetPoints"), ("weights", B + "PolynomialInterp.cpp: LagrangianPolynomialCoeffs"), ("corrections", A + "FluxCorrectionFunction.cpp: GetDerivatives")],
     "bounded: up to 12 points or degree 10, interpolation on 1-6 points in three arrangements; coefficients in [-1,1]; real arithmetic with a 1e-6 to 1e-12 tolerance")
prop("C16", "Element and column operators are exact, conservative and dissipative",
     "Vertical interpolation and differentiation between levels and interfaces reproduce every polynomial of their order, also on stretched levels, and every way of applying an operator gives the same column. "
     "The derivative of interface fluxes integrates to the flux through the ends of each element, upwinding and vertical diffusion conserve the column and never amplify it, and the horizontal derivative and stiffness matrices are exact and transposes of each other.",
     ["inputs", "configurations"], "every polynomial of the order and every column of values",
     [A + "LinearColumnOperatorFEM.cpp", A + "LinearColumnOperator.cpp", A + "GridGLL.cpp"],
     [("column operators", A + "LinearColumnOperatorFEM.cpp"), ("element operators", A + "GridGLL.cpp: Initialize")],
     "bounded: 3-9 levels, vertical orders 1-5 (finite element) and 2, 4 (finite volume), element orders 2-9; reduced exactness at the two ends for second derivatives and low orders")
prop("C17", "Vertical levels fill the column in order",
     "The vertical stretching functions map the column onto itself, keep the order of heights and report their own slope. "
     "Levels lie strictly between their interfaces, interfaces run from the bottom to the top, element boundaries sit where the stretching puts them, and level and interface weights are positive and integrate polynomials over the column.",
     ["inputs", "configurations"], "every pair of column coordinates; every polynomial up to the order",
     [A + "VerticalStretch.h", A + "GridGLL.cpp"], [("stretching", A + "VerticalStretch.h"), ("levels", A + "GridGLL.cpp: InitializeVerticalCoordinate")],
     "bounded: 3-9 levels, orders 1-5, three stretching functions, plane and sphere")
prop("C13", "Cubed-sphere coordinates, vectors and indices are consistent",
     "Every point of every panel has one position: its geographical coordinates, its Cartesian position and its coordinates on neighbouring panels agree, and converting back gives the same panel and point. "
     "Vectors and covectors keep their physical meaning when converted between panel and geographical components (at the poles too) or between neighbouring panels, and element indices, directions and axis flips across panel edges match the geometry.",
     ["inputs"], "every point, vector, panel pair and element index",
     [A + "CubedSphereTrans.cpp", A + "CubedSphereTrans.h"],
     [("points", A + "CubedSphereTrans.cpp: RLLFromXYP, XYPFromRLL, XYPFromXYP"), ("vectors", A + "CubedSphereTrans.h: VecPanelTrans, CoVecPanelTrans"), ("indices", A + "CubedSphereTrans.h: RelativeCoord, OpposingDirection")],
     "bounded: real arithmetic, tolerance 1e-8; polar panels within 1e-6 of the axis only on the axis; panel changes within 0.2 of the shared edge; up to 1000 elements per edge")

prop("C04", "A restarted run continues like the uninterrupted one",
     "A restart file holds the complete model: a run started from it begins at the time it was written with the same grid, geometry, wind, temperature, density and tracers, and ends with exactly the values of the run that was never interrupted. "
     "The number of processes that wrote it, the order in which their data arrive and the number that read it make no difference; the time schemes covered are those whose step depends on the current state alone. "
     "A missing, foreign or incomplete file is refused.",
     ["inputs", "configurations", "schedules", "histories"], "every field value, message order and shortened length of the file; grids, schemes and process counts as listed",
     [A + "OutputManagerComposite.cpp", A + "Model.cpp", A + "Grid.cpp", A + "GridPatch.cpp", B + "DataContainer.cpp"],
     [("writing", A + "OutputManagerComposite.cpp: Output"), ("reading", A + "OutputManagerComposite.cpp: Input"), ("starting", A + "Model.cpp: SetGridFromRestartFile")],
     "bounded: 2 to 3 steps on the smallest grids; 1 to 6 processes; files kept in memory")

prop("C21", "The implicit column step solves the column equations",
     "The implicit vertical step moves every copy of a column by the solution of one linear system whose right-hand side is the vertical tendency the explicit form applies and whose matrix is the derivative of the backward Euler equations of that column. "
     "It keeps the column's mass, potential temperature and tracer mass, keeps a uniform mixing ratio uniform, and leaves the horizontal wind and the vertical velocity at the bottom and the top alone.",
     ["inputs", "configurations"], "every value of the column's density, potential temperature density, vertical velocity and tracers in a range",
     [A + "VerticalDynamicsFEM.cpp", A + "VerticalDynamicsFEMV2.cpp", B + "LinearAlgebra.cpp"],
     [("tendencies", A + "VerticalDynamicsFEM.cpp: BuildF"), ("matrix", A + "VerticalDynamicsFEM.cpp: BuildJacobianF"), ("tracers", A + "VerticalDynamicsFEM.cpp: UpdateColumnTracers"), ("second module", A + "VerticalDynamicsFEMV2.cpp: BuildF, BuildJacobianF")],
     "bounded: 2-9 levels, vertical orders 1-3, one step size; the matrix rows of vertical velocity only over flat ground")

prop("C03", "Time stepping covers the run exactly and output falls due as requested",
     "A run takes steps of the requested length from the start time, the last one shortened to finish exactly at the end time; the first and last step are marked as such, and a run that ends at its start does nothing. "
     "States are written at the start (unless the run was resumed from a restart file), after each step in which a multiple of the output interval falls due (after every step for shorter intervals), and once at the end, each labelled with its time, never twice for the same time, with a new file of the right name after the requested number of outputs. "
     "Periodic processes run by the same rule, before the output of that time; an interval of zero means only the first and last state and no process.",
     ["inputs", "histories"], "every step length, run length and interval within the stated ranges, crossing days, months and years",
     [A + "Model.cpp", A + "OutputManager.cpp", A + "WorkflowProcess.cpp", B + "TimeObj.cpp"],
     [("loop", A + "Model.cpp: Go"), ("output", A + "OutputManager.cpp: IsOutputNeeded, ManageOutput, InitialOutput, FinalOutput, PerformOutput"), ("processes", A + "WorkflowProcess.cpp: IsReady, Perform")],
     "bounded: runs of up to 8 steps; calendar without leap years (the code does not support differences of dates in the standard calendar)")
prop("C19", "State arithmetic acts on every value and only on its target",
     "Copying, clearing and linearly combining the stored instances of the state or of the tracers give, at every node, level and interface, exactly the stated combination of the values held before, for every choice of coefficients, target and number of terms; "
     "no other instance changes, and operations on the state leave the tracers alone and conversely.",
     ["inputs", "configurations"], "every coefficient in [-2,2], zero included, and every amplitude of the stored values",
     [A + "GridPatch.cpp", A + "Grid.cpp", B + "DataArray4D.h"],
     [("combination", A + "GridPatch.cpp: LinearCombineData"), ("copy and clear", A + "GridPatch.cpp: CopyData, ZeroData"), ("arrays", B + "DataArray4D.h: Scale, AddProduct, Zero")],
     "bounded: small grids, two symbolic amplitudes, up to four symbolic coefficients")
prop("C20", "Totals, norms and energy are those of the whole domain",
     "The reported sum, mean magnitude, root mean square and maximum of every state variable and tracer, the total energy (kinetic, internal or surface-height, and potential, with winds measured as physical velocities), vertical momentum and shallow water potential enstrophy are those of the fields on the whole domain, "
     "over terrain, for every staggering, and independent of how patches are spread over processes.",
     ["inputs", "configurations", "schedules"], "every amplitude of the fields; for the maximum any sign and size of chosen values; every arrival order of messages",
     [A + "GridPatch.cpp", A + "Grid.cpp"],
     [("norms", A + "GridPatch.cpp: Checksum"), ("energy", A + "GridPatch.cpp: ComputeTotalEnergy"), ("reduction", A + "Grid.cpp: Checksum, ComputeTotalEnergy")],
     "bounded: small grids, 2-3 symbolic amplitudes; interface values of density and node values of vertical velocity are those of the code's own interpolation")
prop("C22", "Output files hold the model's fields at the stated points and times",
     "Values written at output points equal the model's fields there: any field that the elements can represent exactly is reproduced at every point and level of the finite-element column, winds as the same vector in eastward and northward parts, vertical velocity as a velocity, with or without the reference state. "
     "The output file holds every field exactly once per output time, at the right record, with the coordinates, levels, terrain height and the moment each record belongs to, split into files of the requested number of records, and the content does not depend on how patches are spread over processes.",
     ["inputs", "configurations", "schedules"], "every field the elements represent, every output point and level, every output time within a day",
     [A + "GridPatchCartesianGLL.cpp", A + "GridPatchCSGLL.cpp", A + "LinearColumnOperatorFEM.cpp", A + "Grid.cpp", A + "OutputManagerReference.cpp", A + "OutputManager.cpp"],
     [("plane", A + "GridPatchCartesianGLL.cpp: InterpolateData"), ("sphere", A + "GridPatchCSGLL.cpp: InterpolateData"), ("levels", A + "LinearColumnOperatorFEM.cpp: LinearColumnInterpFEM"),
      ("files", A + "OutputManagerReference.cpp: OpenFile, Output"), ("collection", A + "Grid.cpp: ReduceInterpolate")],
     "bounded: polynomial fields with four free coefficients; 1 to 6 levels; vertical interpolation of finite volume columns is excluded (the source marks it as not implemented)")
prop("C25", "Equation of state: conversions are exact inverses",
     "Pressure, Exner pressure and potential temperature density follow the ideal gas law and convert into each other and back without loss, for every value and after the constants have been replaced in any order; "
     "the conversion of a test case's variables into prognostic ones turns potential temperature into its density and keeps everything else.",
     ["inputs", "configurations"], "every pressure from 10 to 120000 Pa, every potential temperature density from 0.05 to 500, every Exner pressure from 0.05 to 1.2 times cp",
     [A + "PhysicalConstants.h", A + "EquationSet.cpp"],
     [("conversions", A + "PhysicalConstants.h"), ("components", A + "EquationSet.cpp: ConvertComponents")],
     "bounded: one replaced set of constants, in every order; real arithmetic, rounding left out")
prop("C28", "Derived fields: vorticity, divergence, temperature, surface pressure",
     "Vorticity and divergence of a wind the elements represent are exact on the plane and converge to the analytic ones on the sphere (rotation about any axis, gradient winds); for every continuous wind the circulation around and the outflow of the whole domain vanish, and all copies of a node hold the same value. "
     "Temperature follows from density and potential temperature by the ideal gas law, and surface pressure is the weight of the column above, over terrain and with stretched levels.",
     ["inputs", "configurations"], "every coefficient of the polynomial or spherical winds, every amplitude of noise",
     [A + "GridPatchCSGLL.cpp", A + "GridPatchCartesianGLL.cpp", A + "GridPatch.cpp", A + "GridGLL.cpp"],
     [("plane", A + "GridPatchCartesianGLL.cpp: ComputeCurlAndDiv"), ("sphere", A + "GridPatchCSGLL.cpp: ComputeCurlAndDiv"), ("temperature", A + "GridPatch.cpp: ComputeTemperature"), ("surface pressure", A + "GridPatch.cpp: ComputeSurfacePressure")],
     "bounded: 3-6 symbolic coefficients; the Richardson number is excluded (the source computes it along the level coordinate with unscaled derivatives and calls no definition its own)")

prop("C14", "Evolution respects the symmetries of the domain",
     "On the cubed sphere, turning the initial state (winds, fields, tracers, terrain, sponge) by quarter turns about the planet's axis or mirroring it at the equator and then advancing gives the turned or mirrored result, and on a planet that does not rotate so does every symmetry of the cube, panel for panel; "
     "on the periodic plane the same holds for shifts by an element, reflections, half turns and, on a square, for exchanging the two directions (with the Coriolis force transformed accordingly). "
     "It holds for shallow water and nonhydrostatic flow, for the explicit horizontal and vertical updates, diffusion, and whole time steps.",
     ["inputs", "configurations"], "every amplitude of the node noise in winds, thermodynamic fields and tracers (whole nonhydrostatic steps: tracers)",
     [A + "HorizontalDynamicsFEM.cpp", A + "HorizontalDynamicsFEMV2.cpp", A + "VerticalDynamicsFEM.cpp", A + "GridPatchCSGLL.cpp", A + "GridPatchCartesianGLL.cpp", A + "CubedSphereTrans.cpp"],
     [("horizontal update", A + "HorizontalDynamicsFEM.cpp: StepShallowWater, StepNonhydrostaticPrimitive"), ("diffusion", A + "HorizontalDynamicsFEM.cpp: ApplyScalarHyperdiffusion, ApplyVectorHyperdiffusion"),
      ("metric", A + "GridPatchCSGLL.cpp: EvaluateGeometricTerms"), ("panels", A + "CubedSphereTrans.cpp")],
     "bounded: 1-3 elements per side, two symbolic amplitudes")
prop("C29", "A fluid at rest stays at rest and a uniform flow stays uniform",
     "Shallow water with a level surface over any terrain, and a nonhydrostatic atmosphere on flat ground with any profile of density, temperature and tracers that does not vary horizontally, acquire no wind and do not change under the explicit updates and diffusion (shallow water: also in whole time steps with any scheme); tracers stay where they are. "
     "On the periodic plane without rotation a wind that is uniform on each level carries uniform fields without changing them.",
     ["inputs", "configurations"], "every depth, density, wind and terrain amplitude within the stated ranges",
     [A + "HorizontalDynamicsFEM.cpp", A + "HorizontalDynamicsFEMV2.cpp", A + "VerticalDynamicsFEM.cpp"],
     [("shallow water", A + "HorizontalDynamicsFEM.cpp: StepShallowWater"), ("nonhydrostatic", A + "HorizontalDynamicsFEM.cpp: StepNonhydrostaticPrimitive")],
     "bounded: small grids, 3 symbolic amplitudes; time steps within the stability limit")
prop("C30", "Explicit tendencies are those of the equations of motion",
     "Away from the seam of the periodic plane, one explicit horizontal update changes fields the elements represent exactly (polynomial winds, depth or density and potential temperature density, tracers) at exactly the rate of the equations: advection, Coriolis force varying with latitude, pressure or surface gradient, convergence of mass, heat and tracer fluxes, and transport of vertical velocity. "
     "On the sphere the rates for rotation about any axis under smooth fields converge to the analytic ones for every element order used.",
     ["inputs", "configurations"], "every coefficient amplitude of the polynomial fields; every axis and speed of rotation",
     [A + "HorizontalDynamicsFEM.cpp", A + "HorizontalDynamicsFEMV2.cpp", A + "GridPatchCartesianGLL.cpp", A + "GridPatchCSGLL.cpp"],
     [("shallow water", A + "HorizontalDynamicsFEM.cpp: StepShallowWater"), ("nonhydrostatic", A + "HorizontalDynamicsFEM.cpp: StepNonhydrostaticPrimitive"), ("rotation", A + "GridPatchCartesianGLL.cpp: EvaluateGeometricTerms")],
     "bounded: element orders 3 to 6 (8 thorough), flat ground for nonhydrostatic flow; on the sphere within the truncation error of the grid")
