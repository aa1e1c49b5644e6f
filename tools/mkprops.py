#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that wording stays reviewable)."""
import json
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": observe, "hook_needed": hook}})

prop("C01", "A linear solve returns fields that satisfy the discretised Maxwell equations",
 "For every permittivity map (real or complex), source, frequency, grid spacing, length unit, absorbing-layer thickness and polarization, the fields a linear solve returns satisfy in every cell the driven discretised Maxwell equations of exactly that setup: the wave equation for the primary component and the curl relations for both transverse components (for Hz with the permittivity as stored, or edge-averaged when averaging is requested). The stored fields are the returned ones, the components of the other polarization stay absent, one-dimensional inputs behave as a column of cells with no variation across it, and a zero source gives zero fields. A solve leaves permittivity and source as they were and can be repeated with the same result.",
 ["inputs", "configurations"], "all grids (including 1D and single-row grids), real/complex permittivity, dense or sparse complex sources, omega, dl, L0, NPML >= 0 per side, pol in {Ez, Hz}, averaging on/off",
 "test_simulation compares one fixed 1D/2D setup against its own output shapes and a pair of frequencies; no test evaluates the equations on a returned field, and a wrong stencil, scale or PML factor still yields plausible fields.",
 ["angler/simulation.py", "angler/linalg.py", "angler/derivatives.py", "angler/pml.py", "angler/constants.py"],
 [("assembly of the system matrix", "angler/linalg.py: construct_A"), ("derivative stencils", "angler/derivatives.py: createDws"), ("stretching factors", "angler/pml.py: create_sfactor"), ("derived transverse fields", "angler/simulation.py: solve_fields")],
 ["Simulation.solve_fields() return value", "Simulation.fields"],
 [("eps_r", "relative permittivity per cell", "Simulation.eps_r"), ("src", "current source per cell", "Simulation.src"), ("fields", "last linear solution", "Simulation.fields")])

prop("C02", "Stored fields and operator never belong to an earlier permittivity",
 "Along any sequence of public operations on a simulation (assigning permittivities, design-region initialisation, changing the source, frequency followed by permittivity, adding nonlinearities, linear and nonlinear solves, probes, plots, copies), a stored linear or nonlinear field is either absent or the solution for the permittivity the simulation currently reports. Every solve uses the permittivity, frequency (as of the last permittivity assignment), source and nonlinearities in force at the time of the call, never those of an earlier moment. Assigning a permittivity drops all stored fields, and read-only operations (probes, plots, index-shift queries apart from refreshing fields, copies) change none of the reported state.",
 ["histories"], "all finite sequences of public Simulation operations; decided over TLC-generated sequences and, for the abstract ownership state machine, exhaustively up to the stated bound",
 "Tests build a fresh simulation per case and solve once or twice; stale state needs particular multi-step sequences.",
 ["angler/simulation.py", "angler/nonlinear_solvers.py"],
 [("permittivity setter rebuilds the operator and clears the fields", "angler/simulation.py: eps_r setter"), ("nonlinear solves start from stored linear fields", "angler/nonlinear_solvers.py: born_solve, newton_solve")],
 ["Simulation.fields", "Simulation.fields_nl", "Simulation.eps_r", "values returned by solves and probes"],
 [("fields / fields_nl", "cached solutions", "Simulation"), ("A, derivs", "operator of the current permittivity", "Simulation")])

prop("C03", "Absorbing layers absorb, and axes without them are exactly periodic",
 "Along an axis with no absorbing layer the domain is exactly periodic: cyclically shifting permittivity and source shifts every field component identically. Along an axis with absorbing layers waves leave: in lossless media a source never receives net power from outside, power decreases monotonically through the layer, and enlarging the domain or thickening the layers leaves the fields in the common interior unchanged up to a small reflection. Outside the layers the equations are those of the unstretched medium.",
 ["inputs", "configurations"], "all grid sizes, layer thicknesses per axis, frequencies, structures and sources in both polarizations",
 "test_NPML only checks that a simulation with layers can be built and solved; reflection, gain and periodicity are never measured.",
 ["angler/pml.py", "angler/derivatives.py", "angler/linalg.py"],
 [("quartic conductivity profile per side and per staggered position", "angler/pml.py: sig_w, S, create_sfactor, S_create"), ("wrap-around stencils", "angler/derivatives.py: createDws")],
 ["Simulation.solve_fields() on shifted/enlarged domains", "Simulation.flux_probe()"])

prop("C04", "Probed power is the Poynting flux of the stored fields and is conserved",
 "The power reported by a probe is the discrete integral over its line of the normal time-averaged Poynting vector of the stored fields (nonlinear ones when asked for), formed with the primary field averaged to the position of the transverse field. Hence in a lossless source-free region the net flux out of every closed rectangle vanishes (for Hz with edge-averaged transverse fields), parallel full-span lines agree, and power only appears where there is a source and only disappears in absorbers or lossy material. Probing changes nothing, accepts lines up to the full span of the grid and centres counted from the far side, and rejects an invalid direction.",
 ["inputs", "configurations"], "all line positions, directions and widths, linear and Kerr-nonlinear fields, both polarizations, scaling of the source",
 "Only test_utils-style smoke use of a single probe; a wrong neighbour or sign is within a few percent on smooth fields and no test closes a surface.",
 ["angler/simulation.py"],
 [("line selection, averaging and Poynting sum", "angler/simulation.py: flux_probe")],
 ["Simulation.flux_probe() return values"])

prop("C05", "A converged nonlinear solve is self-consistent, whatever solver or start",
 "When a nonlinear solve (Ez) reports convergence below its threshold, the returned and stored fields satisfy the nonlinear discretised equations, with the permittivity increased by the Kerr term of those same fields, in every cell, for fixed-point, Newton and hybrid solvers and for any starting field given or implied; the transverse fields are the curls of that field. The reported history is the relative change of each iteration performed, iterations stop as soon as it is below the threshold or at the iteration limit, and Newton iterations are exact Newton steps (so convergence near the solution is quadratic). With no nonlinearity, or zero susceptibility, the nonlinear fields equal the linear ones, and the stored linear fields are never altered by a nonlinear solve.",
 ["inputs", "configurations", "histories"], "all Kerr strengths for which the iteration converges, regions, permittivity-scaled or plain nonlinearity, several nonlinearities, starting fields, thresholds and iteration limits",
 "test_born_newton compares the two solvers with each other on one structure; an error in the shared evaluation of the nonlinearity, or in what is stored, cancels out.",
 ["angler/nonlinear_solvers.py", "angler/simulation.py", "angler/nonlinearity.py", "angler/linalg.py"],
 [("fixed-point iteration", "angler/nonlinear_solvers.py: born_solve"), ("Newton iteration on the real-imaginary system", "angler/nonlinear_solvers.py: newton_solve, nl_eq_and_jac; angler/linalg.py: solver_complex2real"), ("hybrid switch", "angler/simulation.py: solve_fields_nl")],
 ["Simulation.solve_fields_nl() return value", "Simulation.fields_nl", "Simulation.fields"])

prop("C06", "Kerr permittivity, its derivatives and the index shift follow the Kerr law",
 "The nonlinear permittivity of a simulation is the sum over its nonlinearities of 3 times susceptibility (given in SI, converted to the length unit) times |E|^2 on the nonlinear region, multiplied by the local material fraction (eps-1)/(eps_max-1) when scaling is requested. The stored derivatives are the exact derivatives of that sum with respect to the field (Wirtinger) and to the permittivity, and the index shift is |sqrt(Re(eps+eps_nl)) - sqrt(Re eps)| in every cell for the self-consistent field. Scaling without a maximum permittivity, and any nonlinearity other than Kerr, is rejected.",
 ["inputs", "configurations", "histories"], "all fields, permittivities, regions, susceptibilities, length units, and any number of nonlinearities added in any order (including removal of all of them)",
 "No test evaluates the nonlinearity outside of a full solve, or with more than one nonlinearity.",
 ["angler/nonlinearity.py", "angler/simulation.py"],
 [("closed-form Kerr expressions", "angler/nonlinearity.py: Nonlinearity.__init__"), ("accumulation over nonlinearities", "angler/simulation.py: compute_nl, add_nl, compute_index_shift")],
 ["Simulation.eps_nl, dnl_de, dnl_deps after compute_nl(field)", "Simulation.compute_index_shift()"])

prop("C07", "The gradient of an objective of linear fields is its exact derivative",
 "For an objective depending on any combination of linear field components (Ez, Hx, Hy or Hz, Ex, Ey), the returned gradient is in every cell the exact derivative of the objective with respect to the design density, through the density filter, the projection and the discretised Maxwell equations, including the direct dependence of derived fields on the permittivity. Only permittivity inside the design region counts as variable, and contributions of several arguments add up.",
 ["inputs", "configurations"], "all objectives (real functions of several linear arguments), structures, filter radii, projection strengths, absorbing-layer and periodic boundaries, pols, complex sources",
 "test_gradient compares 5 random pixels with finite differences for Ez only (and does not run on the pinned revision); the other components had no test and were wrong.",
 ["angler/gradients.py", "angler/adjoint.py", "angler/optimization.py", "angler/filter.py"],
 [("adjoint gradients per component", "angler/gradients.py: grad_linear_*"), ("adjoint solves with the transposed operator", "angler/adjoint.py: adjoint_linear_Ez, adjoint_linear_Hz"), ("sum over arguments", "angler/optimization.py: compute_dJ")],
 ["Optimization.compute_dJ()"])

prop("C08", "The gradient of an objective of nonlinear fields is its exact derivative",
 "For an objective depending on any mix of linear and Kerr-nonlinear fields (Ez, Hx, Hy), the returned gradient is in every cell the exact derivative of the objective with respect to the design density, through filter, projection, the dependence of the nonlinearity on field and permittivity, and the self-consistent nonlinear equations. It is computed at the nonlinear field of the objective, independently of which fields the nonlinearity was last evaluated on.",
 ["inputs", "configurations", "histories"], "all objectives of linear and nonlinear arguments, Kerr strengths at which the solve converges, plain and permittivity-scaled nonlinearities, several nonlinearities, filters and projections",
 "The nonlinear gradient test does not run on the pinned revision and covers one objective of Ez; Hx and Hy raised NameError unnoticed.",
 ["angler/gradients.py", "angler/adjoint.py", "angler/optimization.py", "angler/nonlinearity.py"],
 [("adjoint gradients of nonlinear components", "angler/gradients.py: grad_kerr_*"), ("real-doubled adjoint system", "angler/adjoint.py: adjoint_kerr_Ez")],
 ["Optimization.compute_dJ()"])

prop("C09", "Density filter and projection map densities to admissible permittivities",
 "The filter replaces the density of every design cell by the cone-weighted average (weights R minus distance, radius R, normalised to one) of the densities around it, wrapping around exactly on axes without absorbing layers, and leaves the density of other cells alone; design cells too close to an absorbing layer for their full disc are assigned zero. The projection maps [0,1] monotonically onto [0,1] with fixed ends, so permittivities stay within [1, eps_m], uniform densities are preserved, permittivity and density conversions invert each other, and the derivative helpers are the exact derivatives of these maps.",
 ["inputs", "configurations"], "all grid shapes, radii, design regions, layer thicknesses, densities, eta, beta (from 1e-9 to large), eps_m",
 "No test touches the filter; only rows whose disc stays in the uniform interior behave the same under wrong normalisation or wrapping.",
 ["angler/filter.py", "angler/utils.py"],
 [("filter matrix", "angler/filter.py: get_W, wrap, dist, sub2ind"), ("tanh projection and derivatives", "angler/filter.py: rhot2rhob, drhob_drhot, rho2eps, eps2rho; angler/utils.py: rho_bar, drho_bar_drho, eps2rho_bar, rho_bar2eps")],
 ["get_W(...)", "rho2eps(...)", "eps2rho(...)", "drhob_drhot(...)"])

prop("C10", "Objective and gradient always refer to the current state",
 "Along any sequence of operations on a simulation and an optimization (changing permittivity, source, nonlinearities or objective, evaluating other simulations, gradient checks, frequency scans, direct solves), a request for the objective or its gradient returns the value for the simulation passed as it is at that moment, equal to what freshly built objects would give. Repeating a request without a change returns the same value.",
 ["histories"], "all finite sequences of the listed operations; decided over TLC-generated sequences, and exhaustively on the abstract cache-ownership model up to the stated bound",
 "Staleness of the cached field arguments needs particular sequences (evaluate, change, evaluate) that no test performs.",
 ["angler/optimization.py"],
 [("cache of field arguments and its validity", "angler/optimization.py: _solve_objfn_arg_fields, compute_J, compute_dJ")],
 ["Optimization.compute_J()", "Optimization.compute_dJ()"],
 [("field_arg_list", "cached arguments of the objective", "Optimization")])

prop("C11", "An optimization run keeps its design admissible and its records truthful",
 "For every method, during and after a run densities in the design region stay within [0,1], the permittivity there is the filtered and projected image of the density, and permittivity outside the design region is never altered. Gradient descent and ADAM append exactly one objective record per iteration, L-BFGS at most the requested number, each record being the true objective of the design it was taken at; method names are case-insensitive and unknown ones are rejected. A run may start with or without prior design initialisation, may be continued by another run, and does not touch the source unless an index-shift limit is set.",
 ["inputs", "configurations", "histories"], "methods, step counts, step sizes, filters, projections, background and waveguide materials outside the design range, linear and nonlinear objectives, repeated runs",
 "No test calls run(); on the pinned revision its default method crashed.",
 ["angler/optimization.py"],
 [("density update and clipping", "angler/optimization.py: _update_rho, _set_design_region"), ("loops", "angler/optimization.py: run, _run_GD, _run_ADAM, _run_LBFGS")],
 ["Simulation.rho and eps_r after run()", "Optimization.objfn_list"])

prop("C12", "Optimizer iterations are exact ascent steps and honour the index-shift limit",
 "One gradient-descent iteration changes the density by exactly step size times gradient inside the design region, clipped to [0,1]; ADAM uses its bias-corrected first and second moments over the gradients of all iterations so far; both move towards larger objectives, and L-BFGS never ends with a smaller objective than it started from. When a maximum index shift is set, each iteration records the source amplitude and then rescales the whole source by sqrt(limit / present maximum shift) minus one percent, without changing its shape; with an optional normalisation the reported objective curve divides by amplitude or power accordingly.",
 ["inputs", "configurations", "histories"], "objectives, step sizes, moment parameters, iteration counts, index-shift limits",
 "No test executes an optimization step.",
 ["angler/optimization.py"],
 [("ADAM moments", "angler/optimization.py: _step_adam"), ("source rescaling", "angler/optimization.py: _set_source_amplitude"), ("L-BFGS wrapper", "angler/optimization.py: _run_LBFGS")],
 ["Simulation.rho after each iteration", "Optimization.src_amplitudes", "Simulation.src"])

prop("C13", "Scans and derivative checks report true values and leave their subject alone",
 "A frequency scan evaluates the objective of the same structure, source and nonlinearities at equally spaced frequencies spanning the requested band and reports as width the frequency spacing times the number of contiguous points around the centre above half the maximum. A power scan reports, at logarithmically spaced amplitudes of the first mode, the input power and each probe's power ratio on the converged nonlinear (and matching linear) fields. A derivative check returns, for random design pixels, the gradient and the forward difference of the objective; all of them leave permittivity, density, frequency, source and modes of the simulation unchanged, and a power scan without probes is rejected.",
 ["inputs", "configurations"], "bands, number of points (even and odd), objectives, mode sources, probes, solvers",
 "No test calls a scan; a scan that reuses fields or mutates the simulation returns plausible curves.",
 ["angler/optimization.py"],
 [("copies per point", "angler/optimization.py: scan_frequency, scan_power, check_deriv")],
 ["return values of the scans", "Simulation state before and after"])

prop("C14", "A mode source is the requested eigenmode, normalised, on its line only",
 "Setting up a mode places on the cells of its line, and nowhere else, a real-signed profile whose magnitude is that of the eigenmode of the line's discretised transverse equation nearest to the guessed effective index (or of the requested order counted outwards from it), with Euclidean norm equal to the scale. The input power it reports is that carried by this source alone in the straight waveguide whose core (the cells of its row or column with permittivity above 1) has the maximum permittivity, so it grows with the square of the scale and does not depend on other sources, and repeated setup gives the same result (up to the sign of the profile). Setup changes nothing else in the simulation; several modes add their lines independently.",
 ["inputs", "configurations", "histories"], "both polarizations and directions, line positions and widths, orders, scales, multi-mode cross-sections, pre-existing sources",
 "Tests only use a modal source as an ingredient; neither profile nor power is compared with anything.",
 ["angler/source/mode.py", "angler/linalg.py", "angler/simulation.py"],
 [("transverse eigenproblem and insertion", "angler/source/mode.py: insert_mode"), ("normalisation run", "angler/source/mode.py: compute_normalization"), ("eigensolver", "angler/linalg.py: solver_eigs")],
 ["Simulation.src and W_in after setup_modes()"])

prop("C15", "Structure generators rasterise exactly the documented geometry",
 "Each generator (two-port, three-port, N-port, ortho-port, accelerator, multi-channel accelerator) returns a permittivity map and a 0/1 design mask of the grid implied by lengths, spacing and absorbing layers, in which precisely the cells whose centre coordinates lie in the documented shapes carry the requested material or belong to the mask. Everything else has the background permittivity, coordinates are centred on the grid, region lists are unioned in order, and an even channel count is rejected.",
 ["inputs", "configurations"], "all positive lengths, spacings, paddings, permittivities and port counts away from rounding ties",
 "test_gradient and test_utils use one fixed geometry as an input and never inspect it.",
 ["angler/structures.py"],
 [("coordinate grid", "angler/structures.py: get_grid"), ("region masks", "angler/structures.py: apply_regions"), ("generators", "angler/structures.py: two_port, three_port, N_port, ortho_port, accelerator, accelerator_multi")],
 ["returned (eps_r, design_region)"])

prop("C16", "Objectives bind their arguments to the right fields and gradients",
 "An objective evaluates its function on exactly the declared fields, in declaration order: each argument supplies the component and the linear or nonlinear version it names. It is linear precisely if no argument is nonlinear, in which case no nonlinear solve is performed, and replacing the function refreshes its derivatives. Argument counts that do not match the function, unknown components and components absent for the polarization are rejected.",
 ["inputs", "configurations", "histories"], "all argument lists (component, linear/nonlinear, repeated components, single argument without list), functions, polarizations",
 "test_objective checks construction with one mislabelled example and that derivatives exist, not their values or which field an argument receives.",
 ["angler/objective.py", "angler/optimization.py"],
 [("argument check and autograd partials", "angler/objective.py: Objective"), ("component and type selection", "angler/objective.py: obj_arg"), ("argument fields", "angler/optimization.py: _solve_objfn_arg_fields")],
 ["Objective.J, is_linear(), dJ_list", "Optimization.compute_J()"])

prop("C17", "Linear-solver and grid helpers are exact and backend-independent",
 "The direct solver returns the solution of the given sparse system with either backend (named case-insensitively), the coupled solver returns the x solving A11 x + A12 conj(x) = b with either backend, the eigen-solver returns eigenpairs nearest to the guess, and a zero right-hand side gives zeros. Edge averaging, grid spacing and matrix-equality helpers return what they state, an unknown backend is rejected, and no helper modifies its arguments.",
 ["inputs", "configurations"], "all well-conditioned complex sparse systems, right-hand sides of any shape and dtype, both backends",
 "Only the default backend ran in tests; the other branch of the coupled solver raised NameError unnoticed.",
 ["angler/linalg.py"],
 [("direct solve", "angler/linalg.py: solver_direct"), ("real-imaginary doubling", "angler/linalg.py: solver_complex2real"), ("eigenpairs", "angler/linalg.py: solver_eigs"), ("helpers", "angler/linalg.py: grid_average, dL, is_equal")],
 ["return values"])

prop("C18", "Binarization penalties multiply the objective by the stated factor",
 "Wrapping an objective multiplies its value by one factor depending only on the permittivity in the design region: one minus the mean grayness, its exponential variant with the given constant, or one minus the line-wise smoothness penalty. The density factors are 1 exactly for fully binary designs and decrease with any grayness, changes outside the design region have no influence, and derivatives of the wrapped objective obey the product rule.",
 ["inputs"], "all permittivities, design masks, eps_m, exponential constants and wrapped objectives, as function or decorator",
 "The existing test does not run on the pinned revision and compares values only with each other.",
 ["angler/utils.py"],
 [("penalties", "angler/utils.py: Binarizer.density, density_exp, smoothness")],
 ["value and autograd derivative of the wrapped objective"])

prop("C19", "Design initialisation sets exactly the design cells to the requested material",
 "Initialising a design region sets the cells of the mask to full, half or empty material, to independent random values within [1, eps_m], to random values symmetric under reflection of the transverse axis, or leaves them alone when no style is given, and changes no other cell. The density afterwards is that of the resulting permittivity everywhere, solved fields are dropped when the permittivity is replaced, and neither the mask nor any array the caller passed in earlier is modified.",
 ["inputs", "configurations", "histories"], "all masks, background structures, eps_m, styles, and repeated initialisation",
 "No test inspects the permittivity after initialisation.",
 ["angler/simulation.py", "angler/filter.py"],
 [("style handling", "angler/simulation.py: init_design_region"), ("density conversion", "angler/filter.py: eps2rho")],
 ["Simulation.eps_r, rho, fields"])

prop("C20", "Plots show the data as it is and disturb nothing",
 "Each plotting call draws exactly the requested quantity (magnitude, real part, normalised difference of linear and nonlinear magnitudes, permittivity, objective history), transposed so that x runs horizontally, tiled as asked, with the stated colour limits, on the given axes or new ones, and refuses when the fields it needs were not solved. Plots and animations change no state of simulation or optimization. Temporary plots of a run are written every so many iterations into the configured folder only, after removing just the plain files directly in it.",
 ["inputs", "configurations", "histories"], "all plot kinds, tilings, limits, log scales, linear/nonlinear, given or new axes; folders with files, sub-folders and links",
 "No test plots; several plot paths raised on current numpy/matplotlib unnoticed.",
 ["angler/simulation.py", "angler/plot.py", "angler/optimization.py"],
 [("field plots", "angler/simulation.py: plt_abs, plt_re, plt_diff, plt_eps"), ("drawing", "angler/plot.py: plt_base, plt_base_eps, plt_base_ani"), ("temporary plots", "angler/optimization.py: plot_it, _check_temp_plt, plt_objs")],
 ["image data, limits and axes of the returned plot", "files in the configured folder"])

prop("C21", "Simulations accept exactly the valid setups and report what they were given",
 "Constructing a simulation rejects non-positive frequency or length unit, absorbing-layer lists that are not two non-negative entries in a list, and polarizations other than Ez and Hz, whatever the other inputs; every other setup is accepted. An accepted simulation reports the given values (layer counts truncated to integers), the grid of the permittivity, domain extents equal to cells times spacing, a zero source, no modes, no nonlinearity, no density and no fields.",
 ["inputs", "configurations"], "all combinations of valid and invalid constructor arguments, 1D and 2D permittivities, integer or float numbers",
 "test_pol, test_freq and test_NPML try one or two invalid values each.",
 ["angler/simulation.py"],
 [("input checks", "angler/simulation.py: _check_inputs, __init__")],
 ["exceptions and attributes after construction"])

prop("C22", "A stored device snapshot reproduces the data of its optimization",
 "A device snapshot works on copies, so building it and generating data never alters the simulation and optimization it was made from, and its reported fields, index shift, port transmissions, frequency and power scans are those of the stored simulation with the ports at the documented positions of each supported structure. Unsupported structure types are rejected, saving warns about missing parts, and loading a saved device returns equal data.",
 ["inputs", "histories"], "two-, three- and ortho-port devices, any order of parameter setting, data generation, save and load",
 "data/ has no tests at all.",
 ["data/device_saver.py"],
 [("snapshot object", "data/device_saver.py: Device"), ("pickling", "data/device_saver.py: save, load_device")],
 ["attributes of the device object", "loaded object"])

prop("C23", "Objects are independent: no call leaks state into another object or the caller",
 "Simulations, copies of simulations, modes, nonlinearities, objectives and optimizations built separately do not influence each other: operating on one leaves every observable of the others unchanged, and results do not depend on what was computed before on unrelated objects. Arrays passed in by the caller (permittivities, masks, sources, starting fields, densities, matrices) are never written to.",
 ["histories", "inputs"], "all interleavings of operations on two or more live objects sharing input arrays; decided over TLC-generated interleavings",
 "Tests use one object at a time.",
 ["angler/simulation.py", "angler/optimization.py", "angler/source/mode.py", "angler/nonlinear_solvers.py", "angler/filter.py", "angler/structures.py"],
 [("copies made per run, scan and normalisation", "angler/optimization.py; angler/source/mode.py"), ("per-instance lists", "angler/simulation.py: __init__")],
 ["all public attributes of bystander objects, byte-wise contents of caller arrays"])

with open("/verif/properties.jsonl", "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
