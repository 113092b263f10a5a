"""writes /verif/properties.jsonl (kept as a script so that the long texts stay readable)"""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, **kw):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    a.update(kw)
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

prop("C01", "Halo exchange pairs each tile edge with the geometrically adjacent tile edge",
     "For every admissible number of processes (6 n^2), each of the four neighbours a tile exchanges boundary data with is the tile that touches that edge on the sphere, the relation is reciprocal (if A sees B across an edge then B sees A across the matching edge), and the data sent over an edge is reversed exactly when the two tiles run along the shared edge in opposite directions. What a tile receives in its north, south, west and east buffer therefore comes from the same physical points, in its own order.",
     ["configurations"], "all process counts 6 n^2 (every n), all 6 panels, all tile positions, all 4 edges",
     "The topology test runs n = 1, 2, 3 with coordinate-invariant data only; the rule must hold for every n and every edge.",
     ["wx_factory/process_topology.py", "wx_factory/geometry/cubed_sphere_2d.py", "wx_factory/geometry/cubed_sphere_3d.py"],
     [("neighbour tables, tile numbering, flip flags", "wx_factory/process_topology.py:ProcessTopology.__init__"),
      ("exchange of scalars and vectors", "wx_factory/process_topology.py:ProcessTopology.start_exchange_scalars / start_exchange_vectors, ExchangeRequest.wait")])

prop("C02", "Vectors sent across a panel edge arrive in the neighbour's own components",
     "A contravariant (or covariant) vector given at a point of a panel edge is, after the exchange, expressed in the neighbouring panel's coordinate basis and denotes the same geometric vector; the exchanged third component is untouched. Consequently converting there and back is the identity, and contracting a converted covector with a converted vector is invariant.",
     ["configurations", "inputs"], "all 24 panel edges, all points along them, all vector values, both vector kinds",
     "Tests check the round trip on two directions for a few sizes; several edges and the covariant conversion are never exercised, and a wrong but self-inverse formula passes.",
     ["wx_factory/process_topology.py"],
     [("per-edge conversion functions", "wx_factory/process_topology.py: convert_contra / convert_covs tables")])

prop("C03", "Gathering and distributing fields over the process grid loses and moves nothing",
     "Gathering the tiles of all processes onto panels places every tile's data at its own position on its own panel, and distributing panels to tiles is the exact inverse, for every number of processes and for both 2-D and 3-D fields. Writing a field, or saving then loading a restart file, therefore returns every value to the same grid point.",
     ["configurations"], "every process count 6 n^2, every tile, every field rank",
     "Restart tests run one resolution on few process counts; position errors that are permutations of tiles are invisible to completion tests.",
     ["wx_factory/process_topology.py", "wx_factory/output/state.py", "wx_factory/output/output_cubesphere_netcdf.py"],
     [("tile/panel/cube gathers", "wx_factory/process_topology.py: gather_tiles_to_panel, gather_cube, distribute_cube")])

prop("C04", "All processes issue the same collective operations in the same order",
     "Every MPI collective operation (reductions, broadcasts, gathers, neighbour exchanges, communicator splits, barriers) in a run is reached by every process of its communicator, the same number of times and in the same order: no branch, loop bound, early return or exception that depends on data which may differ between processes decides whether a collective is executed. No input or configuration can therefore make some processes wait forever for the others.",
     ["schedules", "inputs", "configurations"], "all inputs, all process counts, all control paths that reach a collective",
     "A rank-dependent branch around a collective shows only for the data that splits the ranks; tests run a few converging cases.",
     ["wx_factory/solvers/", "wx_factory/output/", "wx_factory/simulation/simulation.py", "wx_factory/wx_mpi.py", "wx_factory/process_topology.py"],
     [("collective call sites and the branches that control them", "wx_factory/**")])

prop("C05", "Krylov solvers use global inner products and norms, each summed exactly once",
     "In every linear and exponential solver, each inner product or norm of distributed vectors that steers the algorithm (orthogonalisation coefficients, residual norms, error estimates, convergence tests) is the sum over all processes, with every process's part counted exactly once; components replicated on all processes are never counted once per process. The result of a solve therefore does not depend on how the vector is split over processes, other than by rounding.",
     ["inputs", "configurations"], "every vector, every splitting over any number of processes",
     "Solver unit tests use 1 or 6 processes and small systems where most branches (restarts, reorthogonalisation, 1-sync variants) do not occur.",
     ["wx_factory/solvers/"],
     [("global_norm / global_dotprod / global_inf_norm", "wx_factory/solvers/global_operations.py"),
      ("kiops, pmex, cwy, icwy, exode, fgmres, gcrot", "wx_factory/solvers/*.py")])

prop("C06", "Evaluating the right-hand side never modifies its input",
     "Evaluating the spatial right-hand side, or a matrix-vector product built on it, leaves the state vector passed in (and the fields it was built from) unchanged, and the returned array shares no memory with the input or with internal buffers that a later evaluation overwrites. Two evaluations at the same state therefore give the same answer whatever was evaluated in between.",
     ["histories", "inputs"], "all sequences of evaluations of every right-hand side the model can run",
     "Tests look at completion or at final values computed with the same code; aliasing needs a specific order of evaluations to show.",
     ["wx_factory/rhs/", "wx_factory/solvers/matvec.py"],
     [("RHS templates and their stages", "wx_factory/rhs/*.py"), ("matvec functions", "wx_factory/solvers/matvec.py")])

prop("C07", "Writing output, statistics or diagnostics never changes the simulation",
     "Producing output (netCDF, fst, pickled state, solver statistics, block statistics, plots) only reads the model state, geometry and parameters: whether, how often and in which format output is written has no influence on the computed solution.",
     ["configurations", "histories"], "all output formats, frequencies and cases",
     "No test compares a run with output to one without; test cases with flat terrain hide additions of zero.",
     ["wx_factory/output/", "wx_factory/simulation/simulation.py"],
     [("output managers, diagnostics, state saver", "wx_factory/output/*.py")])

prop("C08", "Every time integrator is consistent and attains its nominal order",
     "One step of every selectable time integration scheme, applied with exact linear algebra to any smooth autonomous system, agrees with the exact solution up to a local error of O(dt^(p+1)), where p is the scheme's nominal order; multistep schemes do so given exact past values, and their start-up phase is consistent too.",
     ["programs", "inputs"], "all smooth right-hand sides, all selectable integrators",
     "Integration tests only check that short runs complete; a wrong coefficient lowers the order without failing anything.",
     ["wx_factory/integrators/"],
     [("__step__ of each integrator", "wx_factory/integrators/*.py")])

prop("C09", "Runge-Kutta tables satisfy the order conditions of their declared order",
     "Each tabulated Runge-Kutta pair used by the adaptive explicit solver satisfies all rooted-tree order conditions up to its declared order, its embedded error estimator those of the embedded order, its abscissae are the row sums of its coefficients, and it is strictly explicit. A table that claims the first-same-as-last property has it.",
     ["programs", "inputs"], "all smooth right-hand sides; all tables",
     "Tables have up to 35 stages; no test measures convergence order.",
     ["wx_factory/integrators/butcher.py", "wx_factory/solvers/exode.py"],
     [("coefficient tables", "wx_factory/integrators/butcher.py")])

prop("C10", "Numerical interface fluxes are consistent, single-valued and wall-tight",
     "At every element interface both neighbouring elements use the same numerical flux, so what leaves one enters the other; when the two sides carry the same state the numerical flux equals the physical flux of that state, and mirrored states give a mirrored flux. At solid walls there is no mass, density or temperature flux and momentum only feels pressure.",
     ["inputs", "configurations"], "all states on both sides, all interfaces, all equation sets (2-D and 3-D Euler, shallow water, Cartesian bubble)",
     "Conservation errors smaller than truncation error do not show in completion tests; kernels are tested on none but a few smooth states.",
     ["wx_factory/pde/", "wx_factory/rhs/"],
     [("Riemann, pointwise and boundary flux kernels", "wx_factory/pde/kernels/*.hpp"), ("Python flux code", "wx_factory/pde/fluxes.py, wx_factory/rhs/*.py")])

prop("C11", "Physical constants and state layout agree between Python and the native kernels",
     "The Python code and the compiled C++ kernels use identical values for every physical constant and the same numbering of prognostic variables, and every native entry point is called with the arguments, in the order and number, that it declares.",
     ["programs", "configurations"], "all constants, all entry points, all backends",
     "The CUDA backend is not run by tests, and a slightly different constant changes results without failing anything.",
     ["wx_factory/common/definitions.py", "wx_factory/pde/definitions.hpp", "wx_factory/pde/interface.cpp", "wx_factory/pde/interface.cu"],
     [("constants", "wx_factory/common/definitions.py, wx_factory/pde/definitions.hpp"), ("bindings", "wx_factory/pde/interface.cpp")])

prop("C12", "Metric terms are those of the cubed-sphere coordinates, at every point",
     "At every point of every panel, for any grid rotation, the covariant and contravariant metric tensors are inverse to each other and equal those derived from the point positions, the volume element is the square root of the metric determinant, and the connection coefficients used by the equations are those of that metric plus the Coriolis terms.",
     ["configurations", "inputs"], "all points, all panels, all rotations, 2-D and 3-D, with and without topography where analytic",
     "No test inspects metric terms; errors of a term that vanishes on the panel centre lines survive completion runs.",
     ["wx_factory/geometry/metric2d.py", "wx_factory/geometry/metric3d.py"],
     [("Metric2D.__init__, Metric3DTopo.build_metric", "wx_factory/geometry/metric2d.py, wx_factory/geometry/metric3d.py")])

prop("C13", "The six panels tile the whole sphere consistently under any rotation",
     "For any grid rotation parameters the six panels are the six faces of one rigidly rotated cube projected on the sphere, the tiles of a panel partition it without gap or overlap for every number of processes, and all point positions (Cartesian, longitude/latitude, polar, element interfaces, 2-D and 3-D grids) describe the same points. Longitude/latitude to Cartesian conversions are mutually inverse.",
     ["configurations"], "all rotations, panels, process counts, resolutions",
     "Tests build a few unrotated grids and never compare positions between panels.",
     ["wx_factory/geometry/cubed_sphere.py", "wx_factory/geometry/cubed_sphere_2d.py", "wx_factory/geometry/cubed_sphere_3d.py", "wx_factory/geometry/sphere.py"],
     [("grid constructors", "wx_factory/geometry/cubed_sphere_2d.py, cubed_sphere_3d.py"), ("cart2sph / sph2cart", "wx_factory/geometry/sphere.py")])

prop("C14", "Wind conversions between spherical and grid components are exact inverses",
     "Converting zonal/meridional (and vertical) wind to contravariant components and back gives the original wind at every point of every panel for any rotation, and the contravariant components denote the same geometric vector as the zonal/meridional ones. Interface variants agree with the interior ones.",
     ["configurations", "inputs"], "all points, panels, rotations and winds; 2-D and 3-D",
     "Only initial conditions and output use these conversions; compensating errors cancel in what tests look at.",
     ["wx_factory/geometry/winds.py"],
     [("wind2contra_2d / contra2wind_2d / wind2contra_3d / contra2wind_3d", "wx_factory/geometry/winds.py")])

prop("C15", "Quadrature, interpolation and differentiation are exact for polynomials",
     "For every supported number of solution points the Gauss-Legendre nodes and weights integrate polynomials up to degree 2n-1 exactly, the extrapolation and differentiation operators are exact for the polynomials of the element, and the corrected derivative of a continuous piecewise polynomial equals its derivative. The operators act on the same point ordering as the grid and the state. The optional modal filter multiplies each polynomial mode by its own factor and leaves the mean untouched, and the optional sponge damps only vertical momentum, only inside its layer.",
     ["configurations", "inputs"], "all supported orders, all polynomials of the element space, all directions",
     "Tests run orders 2-7 for completion; a swapped direction or a wrong node digit still runs.",
     ["wx_factory/geometry/quadrature.py", "wx_factory/geometry/operators.py"],
     [("gauss_legendre", "wx_factory/geometry/quadrature.py"), ("DFROperators", "wx_factory/geometry/operators.py")])

prop("C16", "Configuration options are validated and every accepted choice is honoured",
     "Every option the configuration schema declares is parsed with its declared type, bounds and choices, with invalid or out-of-range values rejected, and every option the program reads is declared. Each choice the schema accepts for a selectable option selects an implementation: no accepted configuration ends in an unhandled or silently ignored choice.",
     ["configurations"], "all configuration files",
     "Tests parse a handful of configuration files; the product of selectable values is never covered.",
     ["wx_factory/common/configuration.py", "wx_factory/common/configuration_schema.py", "config/config-format.json", "wx_factory/simulation/simulation.py"],
     [("schema and parser", "wx_factory/common/configuration_schema.py, configuration.py"), ("dispatchers", "wx_factory/simulation/simulation.py, wx_factory/init/*, wx_factory/solvers/__init__")])

prop("C17", "A run restarted from a saved state continues the original run",
     "Saving the model state and starting from that file restores exactly the saved state vector and step number on every process, for the same and for a different number of processes of the cubed sphere, and the configuration text saved with the state is the one that comes back. Saved states are named by step, time step and resolution, so that the step asked for is the step loaded and a state saved with another time step or resolution is never picked up; when no fitting file can be loaded, every process starts from the initial conditions.",
     ["histories", "crash_points", "configurations"], "every restart step, every process count, every saved configuration",
     "Two restart tests with fixed steps and one configuration.",
     ["wx_factory/simulation/simulation.py", "wx_factory/output/state.py", "wx_factory/output/output_manager.py"],
     [("save_state / load_state", "wx_factory/output/state.py"), ("restart logic", "wx_factory/simulation/simulation.py, wx_factory/output/output_manager.py")])

prop("C18", "The simulation advances exactly to the requested end time",
     "A run performs the steps needed to reach the requested final time and no more: simulated time is the sum of the step sizes actually used, the last step is shortened to end on time, step numbers increase by one per step, and output and restart states are produced at the configured intervals with the time at which they were computed.",
     ["configurations", "histories"], "all dt, end times, starting steps and output frequencies",
     "Tests use end times that are small multiples of dt.",
     ["wx_factory/simulation/simulation.py", "wx_factory/output/output_manager.py", "wx_factory/integrators/integrator.py"],
     [("Simulation.run / step", "wx_factory/simulation/simulation.py"), ("OutputManager.step", "wx_factory/output/output_manager.py")])

prop("C19", "An error in a single-process section is raised on every process",
     "When work is delegated to one process (or a subset) through the program's single-process or multiple-process sections, the others receive its return value if it succeeds, and if it raises they all raise too; no process continues with missing data or keeps waiting. Single-process sections use the same communicator as the surrounding collective code.",
     ["fault_sequences", "schedules"], "any exception at any point of any single-process section, any root",
     "Faults are not injected by the tests.",
     ["wx_factory/wx_mpi.py"],
     [("SingleProcess / Conditional / MultipleProcesses / do_once", "wx_factory/wx_mpi.py"), ("users", "wx_factory/**: with SingleProcess(...)")])

prop("C20", "A failed solve or non-finite state is never silently accepted",
     "When the linear solve of an implicit or Rosenbrock integrator (fgmres, gcrot) reports failure, the integrator records it in its failure flag (splitting methods pass on that of their substeps) and the simulation stops; the Newton solver and the Runge-Kutta exponential solver (exode) raise an error when they do not converge. Solvers that return a convergence flag report success only for a solution whose residual they found within the tolerance, on every path. A NaN or infinite value in the state after a step, on any process, ends the run with an error on all processes.",
     ["fault_sequences", "inputs"], "every solver, every exit path of it, every caller",
     "Tests use converging problems.",
     ["wx_factory/solvers/", "wx_factory/integrators/", "wx_factory/simulation/simulation.py"],
     [("failure_flag", "wx_factory/integrators/*.py, wx_factory/simulation/simulation.py"), ("return flags", "wx_factory/solvers/fgmres.py, gcrot.py, nonlin.py")])

prop("C21", "Configuration expressions can only do arithmetic",
     "Numeric expressions given in configuration files are evaluated over number literals, named mathematical constants and the operators + - * / only, with their usual mathematical meaning; no expression, however written, can call functions, access attributes or other names, or have side effects. Anything else is rejected with an error.",
     ["inputs"], "all strings",
     "Tests evaluate a few strings; the guarantee is about all of them.",
     ["wx_factory/common/eval_expr.py"],
     [("expression evaluator", "wx_factory/common/eval_expr.py"), ("dynamic evaluation sites", "wx_factory/**")])

prop("C22", "Solver statistics rows match the table they are stored in",
     "Every statistics record written to the results database supplies a value for each column of its table in the column's own position, with each inserted value being the quantity the column is named after; tables are only created by one process and each run's rows carry that run's identifier.",
     ["configurations", "histories"], "all records of all runs",
     "Tests disable or ignore the database contents.",
     ["wx_factory/output/solver_stats.py"],
     [("table creation and inserts", "wx_factory/output/solver_stats.py")])

prop("C23", "Matrix-free products are the derivative of the right-hand side",
     "Each matrix-free product applied to a vector v at state Q returns (up to the documented scaling) the directional derivative of the right-hand side at Q along v: the perturbation is applied along v only, divided out again exactly, and the time-step factors cancel as documented for each scheme. The product is linear in v to leading order and returns the shape it was given.",
     ["inputs"], "all states, vectors, right-hand sides; complex-step and finite-difference variants",
     "A wrong scaling only slows solvers or lowers order, which completion tests do not see.",
     ["wx_factory/solvers/matvec.py"],
     [("matvec_fun, matvec_rat, MatvecOpRat, ...", "wx_factory/solvers/matvec.py")])

prop("C24", "Angles stored in 24 bits round-trip exactly",
     "Encoding an angle always gives an integer in the 24-bit range, decoding gives an angle in [-pi, pi[, and decoding what was encoded gives the original angle modulo a full turn to within half of the storage step; encoding a decoded value gives the same integer back. Grid rotation angles written to files and read back are therefore the ones the run used.",
     ["inputs"], "all finite angles, all 24-bit integers",
     "The unit test samples a few angles.",
     ["wx_factory/common/angle24.py"],
     [("encode / decode / angle24", "wx_factory/common/angle24.py")])

prop("C25", "Stepping reaches the answer of the configured accuracy",
     "For every configuration the numerical solution converges to the exact solution at the configured order and stays stable for admissible steps.",
     ["configurations", "inputs"], "all test cases", "No reference solutions are compared.",
     ["wx_factory/"], [("whole model", "wx_factory/")])

prop("C26", "Adaptive exponential solvers meet the requested tolerance",
     "The phi-function actions returned by the adaptive exponential solvers are within the requested tolerance of the exact action.",
     ["inputs"], "all matrices, vectors and tolerances", "Unit tests check a few matrices.",
     ["wx_factory/solvers/kiops.py", "wx_factory/solvers/pmex.py"], [("error estimate and step acceptance", "wx_factory/solvers/kiops.py")])

prop("C27", "The tendency is the flux divergence plus the sources of the equations",
     "For every state, metric, operator set and neighbour data, the spatial tendency returned by each right-hand side (Euler equations on the cubed sphere and on a Cartesian slice, shallow water with and without topography) is minus the discrete divergence of that equation set's fluxes (interior derivative plus interface correction with the numerical flux), divided by the volume element, plus its Coriolis, metric, gravity and topography terms, for every prognostic variable; what is sent to neighbours is the extrapolated state at the shared edge.",
     ["inputs", "configurations"], "all states, metrics, operators and element counts; every prognostic variable and direction",
     "Tests compare a few states with stored results or check completion only; a wrong index in a term that is small in those states passes.",
     ["wx_factory/rhs/rhs_dfr.py", "wx_factory/rhs/rhs_sw.py", "wx_factory/rhs/rhs.py", "wx_factory/pde/"],
     [("RHSDirecFluxReconstruction(_mpi)", "wx_factory/rhs/rhs_dfr.py"), ("RhsShallowWater", "wx_factory/rhs/rhs_sw.py"), ("PDE classes and fluxes", "wx_factory/pde/")])

prop("C28", "Diagnostics and output fields are the quantities their names say",
     "The fields written to netCDF files (height, orography, zonal and meridional wind, vorticities, pressure, density, potential temperature, vertical velocity), the norms of the error against the analytic solution and the conservation statistics are the quantities their names say, for every state, grid and process count: winds are the physical wind of the state, vorticity is the curl of that wind, global integrals are weighted by the volume element and the quadrature of every element of every process exactly once, and the printed errors are relative to the initial integrals.",
     ["inputs", "configurations", "process counts"], "all states, grids, process counts, test cases and output settings",
     "Tests never read back the fields or statistics; a wrong diagnostic passes all of them.",
     ["wx_factory/output/output_cubesphere.py", "wx_factory/output/output_cubesphere_netcdf.py", "wx_factory/output/diagnostic.py", "wx_factory/output/output_cartesian.py"],
     [("diagnostics", "wx_factory/output/diagnostic.py"), ("statistics", "wx_factory/output/output_cubesphere.py"), ("netCDF output", "wx_factory/output/output_cubesphere_netcdf.py")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
