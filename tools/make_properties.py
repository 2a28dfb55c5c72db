#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os

S2 = "sopht/numeric/eulerian_grid_ops/stencil_ops_2d/"
S3 = "sopht/numeric/eulerian_grid_ops/stencil_ops_3d/"
P2 = "sopht/numeric/eulerian_grid_ops/poisson_solver_2d/"
P3 = "sopht/numeric/eulerian_grid_ops/poisson_solver_3d/"
IB = "sopht/numeric/immersed_boundary_ops/"
U = "sopht/utils/"
P = []


def prop(id, title, statement, over, quant, why, files, mech, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=quant), why_tests_cant=why,
        anchors=dict(files=files,
                     mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in state])))


prop("E01", "Differential operators equal their centred differences everywhere",
     "For every grid shape, input field and prefactor, the diffusion flux, curl (2D in-plane, 2D out-of-plane, 3D), divergence and vorticity-stretching flux operators store, at every point at least one cell from each domain face, exactly the second-order centred difference they document, per component, up to rounding. "
     "The one-cell boundary ring of the result is zero when ghost-zone reset is on (the default where offered, and always for vorticity stretching), and keeps its previous content when it is off or not offered. "
     "The result never depends on the previous interior content of the output array.",
     ["inputs", "configurations"],
     "all 2D/3D grid shapes (square or not, any extent that holds the stencil), all field contents, prefactors, scalar/vector variants, ghost reset on/off, prior output contents",
     "The tests use one random field on one square/cubic 16-cell grid per precision, zero-initialised outputs and one prefactor; axis mix-ups that need a non-square grid, stale output content, or dependence on the prefactor are not reached.",
     [S2 + "diffusion_flux_2d.py", S2 + "inplane_field_curl_2d.py", S2 + "outplane_field_curl_2d.py", S3 + "diffusion_flux_3d.py", S3 + "curl_3d.py", S3 + "divergence_3d.py", S3 + "vorticity_stretching_flux_3d.py"],
     [("stencil definitions", S3 + "curl_3d.py:gen_curl_pyst_kernel_3d"), ("ghost zone reset", S3 + "diffusion_flux_3d.py:gen_diffusion_flux_pyst_kernel_3d"), ("stretching flux", S3 + "vorticity_stretching_flux_3d.py")])

prop("E02", "ENO3 advection flux is conservative, upwind-selected and additive",
     "For every combination of velocity signs and magnitudes and every field, the conservative ENO3 advection flux adds to the output array, at every point at least two cells from each face, the difference of the face fluxes over all directions times the given inverse spacing, and touches no other point. "
     "The flux through one face is one single value seen identically (with opposite sign) by the two cells sharing it, so the total over any box of updated cells telescopes to its boundary faces. "
     "The face value is the third-order one-sided reconstruction from the side the mean face velocity comes from (from the right when the mean is zero or negative).",
     ["inputs", "configurations"],
     "all velocity sign/magnitude patterns around a cell (including zero and exact ties), all fields, shapes, inverse spacings of either sign, prior flux contents",
     "The tests compare with one random field and one random velocity on a 16-cell grid starting from zero flux; ties, accumulation and most sign patterns never occur.",
     [S2 + "advection_flux_2d.py", S3 + "advection_flux_3d.py"],
     [("front/back face kernels", S2 + "advection_flux_2d.py:gen_advection_flux_conservative_eno3_pyst_kernel_2d"), ("front/back face kernels", S3 + "advection_flux_3d.py:gen_advection_flux_conservative_eno3_pyst_kernel_3d")])

prop("E03", "Timesteppers integrate their fluxes for any history and scratch content",
     "Advection, diffusion and vorticity-stretching Euler-forward steps change the advanced field by exactly the corresponding flux times the step prefactor, for scalar fields and for each component of vector fields; the SSP-RK3 stretching step is exactly the three-stage strong-stability-preserving Runge-Kutta combination of Euler steps. "
     "The result of any sequence of steps depends only on the advanced field, the velocity and the prefactors, never on the contents left in the flux or mid-step scratch arrays, and points outside the operator's interior keep their value. "
     "Velocity and other inputs are not modified.",
     ["inputs", "histories", "configurations"],
     "all sequences of timestep calls sharing fields and scratch arrays, all fields/velocities/prefactors, scalar and vector variants, all shapes",
     "Tests make a single step from clean (zero) buffers on a cubic grid; no test calls a stepper twice, mixes steppers over the same scratch, or passes dirty scratch.",
     [S2 + "advection_timestep_2d.py", S2 + "diffusion_timestep_2d.py", S3 + "advection_timestep_3d.py", S3 + "diffusion_timestep_3d.py", S3 + "vorticity_stretching_timestep_3d.py"],
     [("flux buffer cleared before accumulation", S2 + "advection_timestep_2d.py"), ("SSP-RK3 stages", S3 + "vorticity_stretching_timestep_3d.py:gen_vorticity_stretching_timestep_ssprk3_pyst_kernel_3d")],
     [("flux / midstep buffers", "caller-owned scratch shared between steps", S3 + "vorticity_stretching_timestep_3d.py")])

prop("E04", "Elementwise operations are exact at every point, also in place",
     "Sum, copy, set-to-value, add-value, scaled sum (a*x + b*y), complex product and 3D cross product compute at every grid point (boundary included) the pointwise operation of that point's operands only, for every operand value and scalar parameter, per component with that component's own parameter. "
     "Set, copy, sum and add are exact to the last bit of the working precision up to the single rounding of the addition. "
     "Sum, scaled sum and add-value give the same result when the output array is one of the inputs.",
     ["inputs", "configurations"],
     "all operand value combinations from a value alphabet, all scalar parameters, all shapes, scalar and vector variants, in-place and out-of-place use",
     "Tests use one random operand pair on one square grid, identical parameters for all components in some cases, and no in-place calls except through timesteps.",
     [S2 + "elementwise_ops_2d.py", S3 + "elementwise_ops_3d.py"],
     [("elementwise kernels", S2 + "elementwise_ops_2d.py"), ("elementwise kernels", S3 + "elementwise_ops_3d.py")])

prop("E05", "Boundary-zone operations act on exactly the zone of the given width",
     "Setting a fixed value at the boundaries writes it to every point closer than the width to some face, and to no other point, for each vector component with its own value. "
     "Boundary penalisation, applied along x, then y (then z in 3D), replaces the zone of the given width at each face by the value of the zone's innermost layer multiplied by a quarter sine that vanishes at the first and last grid coordinate and grows with distance over the width, leaves all other points unchanged, and does nothing for width zero. "
     "Every accepted width that fits the grid works, down to a single layer.",
     ["inputs", "configurations"],
     "all zone widths from zero or one up to half of the smallest extent, all shapes, spacings, coordinate origins, field contents, scalar and vector variants, repeated application",
     "Tests use one width (2 or 3) on one square grid whose coordinates start at a fixed offset; width one, non-square grids and shifted coordinates are never run.",
     [S2 + "elementwise_ops_2d.py", S3 + "elementwise_ops_3d.py", S2 + "penalise_field_boundary_2d.py", S3 + "penalise_field_boundary_3d.py"],
     [("boundary fixed value", S3 + "elementwise_ops_3d.py:gen_set_fixed_val_at_boundaries_pyst_kernel_3d"), ("sine penalisation", S3 + "penalise_field_boundary_3d.py:gen_penalise_field_boundary_pyst_kernel_3d")])

prop("E06", "Brinkmann penalisation and smoothed characteristic function are exact",
     "Brinkmann penalisation (scalar, vector, against a field or a fixed value) gives at every point the implicit blend (field + factor*char*target)/(1 + factor*char), so it returns the field where the characteristic function or the factor is zero and always lies between field and target for non-negative factor and characteristic values. "
     "The characteristic function of a level set is 0 below minus the blend width, 1 above it, and the sine-smoothed Heaviside in between: within [0,1], non-decreasing, continuous at both ends, 1/2 at zero, and complementary under sign change of the level set.",
     ["inputs", "configurations"],
     "all operand values from an alphabet (including zero, band ends and far outside), all penalty factors, blend widths, shapes, scalar/vector variants",
     "Tests use one random field, one penalty factor and one blend width; band ends, zero factors, distinct component targets and monotonicity are not examined.",
     [S2 + "brinkmann_penalise_2d.py", S3 + "brinkmann_penalise_3d.py", S2 + "char_func_from_level_set_2d.py", S3 + "char_func_from_level_set_3d.py"],
     [("penalisation stencil", S2 + "brinkmann_penalise_2d.py"), ("sine Heaviside", S3 + "char_func_from_level_set_3d.py")])

prop("E07", "Vorticity updates add exactly the discrete curl of the velocity change",
     "Updating vorticity from a velocity forcing adds prefactor times the centred-difference curl of the forcing at every point at least one cell from each face and changes nothing else; updating from a penalised velocity adds the same curl of (penalised minus original velocity). "
     "The two updates agree when the forcing is that difference, equal velocities change nothing, and in 3D the added vorticity of any forcing has zero discrete divergence two cells from the faces.",
     ["inputs", "configurations"],
     "all shapes, all forcing/velocity fields (impulses at every point and component), prefactors of either sign, arbitrary prior vorticity",
     "Tests check one random field set on one cubic grid with one prefactor; the consistency between the two updates and the discrete identities are never checked.",
     [S2 + "update_vorticity_from_velocity_forcing_2d.py", S3 + "update_vorticity_from_velocity_forcing_3d.py"],
     [("curl update stencils", S2 + "update_vorticity_from_velocity_forcing_2d.py"), ("curl update stencils", S3 + "update_vorticity_from_velocity_forcing_3d.py")])

prop("E08", "Laplacian filter matches its definition for every order and buffer state",
     "For every filter order (zero included), the multiplicative filter subtracts from the interior the order-fold composition of the x, y and z second-difference damping, and the convolution filter applies the one-dimensional order-fold filters along x, y and z in turn, with boundary values of the damping taken as zero. "
     "The result depends only on the input field, not on what the two work buffers contain from earlier calls, components or other filters; order zero leaves the field unchanged, constants are unchanged, and the one-cell boundary ring is never modified. "
     "Vector filtering is the scalar filter applied to each component.",
     ["inputs", "histories", "configurations"],
     "all orders up to a bound, both filter types, scalar/vector, all shapes, impulses at every point, dirty buffers, sequences of calls sharing buffers",
     "Tests use orders 1 and 2 on a 16-cell cube with zeroed buffers and a single call.",
     [S3 + "laplacian_filter_3d.py"],
     [("filter passes and buffer preparation", S3 + "laplacian_filter_3d.py:gen_laplacian_filter_kernel_3d")],
     [("filter_flux_buffer, field_buffer", "caller-owned scratch shared by calls and components", S3 + "laplacian_filter_3d.py")])

prop("P01", "Unbounded Poisson solve equals free-space Green's convolution, any history",
     "For every grid shape, domain length and right-hand side, the unbounded 2D and 3D Poisson solvers return the free-space Green's function convolution of the right-hand side over the grid (with the documented self-cell regularisation), with no periodic images, for scalar and vector fields. "
     "The answer of a solve is independent of everything solved before with the same solver and of the prior content of the solution array, it is linear in the right-hand side, and the right-hand side is not modified.",
     ["inputs", "histories", "configurations"],
     "all shapes (odd, even, non-square), domain lengths, impulse right-hand sides at every cell, solve sequences on one solver, precisions, thread counts",
     "Tests solve once per solver on a 16-cell square/cubic unit domain; state leaking between solves, anisotropic grids and wrap-around contamination cannot show.",
     [P2 + "UnboundedPoissonSolverPYFFTW2D.py", P3 + "UnboundedPoissonSolverPYFFTW3D.py"],
     [("domain doubling and Green's function", P2 + "UnboundedPoissonSolverPYFFTW2D.py"), ("domain doubling and Green's function", P3 + "UnboundedPoissonSolverPYFFTW3D.py")],
     [("domain-doubled and Fourier buffers", "reused by every solve; must be fully reset", P3 + "UnboundedPoissonSolverPYFFTW3D.py:solve")])

prop("P02", "Neumann Poisson solve has exact residual and zero mean, any history",
     "For every grid shape and spacing, the fast-diagonalisation 2D and 3D solvers return a zero-mean field whose negative discrete Laplacian with homogeneous Neumann boundaries equals the right-hand side minus its mean, for scalar and vector fields, up to rounding. "
     "Constant right-hand sides give zero, solving is linear, the answer does not depend on earlier solves or prior solution content, and the right-hand side is not modified.",
     ["inputs", "histories", "configurations"],
     "all shapes (odd, even, non-square), spacings, impulse right-hand sides at every cell, solve sequences on one solver, precisions",
     "Tests check one smooth cosine solution per solver on a 16-cell square/cubic grid with first-order tolerance and one solve.",
     [P2 + "FastDiagPoissonSolver2D.py", P3 + "FastDiagPoissonSolver3D.py"],
     [("eigendecomposition and mean-mode removal", P2 + "FastDiagPoissonSolver2D.py"), ("tensor-product transforms", P3 + "FastDiagPoissonSolver3D.py:solve")],
     [("spectral buffer", "reused by every solve", P3 + "FastDiagPoissonSolver3D.py")])

prop("P03", "FFT plans compute the DFT and invert it for every shape and history",
     "For every grid shape (odd or even), the planned forward transform of a real field equals its real-to-complex discrete Fourier transform, and the planned inverse of a forward transform returns the field (normalised), in the working precision, for any sequence of transforms through one plan object and on caller arrays or plan buffers. "
     "The reference (scipy-based) forward-and-inverse helpers store the same two results.",
     ["inputs", "histories", "configurations"],
     "all small shapes with an even last extent (and odd ones where supported), impulses at every point, sequences of forward/inverse calls, precisions, thread counts",
     "Tests check one random field at one 16-cell shape and one forward/inverse pass.",
     [P2 + "FFTPyFFTW2D.py", P3 + "FFTPyFFTW3D.py", P2 + "scipy_fft_2d.py", P3 + "scipy_fft_3d.py"],
     [("plan creation and normalisation", P2 + "FFTPyFFTW2D.py"), ("plan creation and normalisation", P3 + "FFTPyFFTW3D.py")])

prop("S01", "Every kernel option computes the same operator",
     "Precision, thread count, fixed or free grid size, memory layout of the arrays passed (contiguous, or strided views of larger arrays for free-size kernels) and scalar versus vector form are performance choices: for every operation all combinations give the same result on the same data, up to the rounding of the chosen precision. "
     "Kernels generated with different options or sizes coexist: generating or calling one never changes what another one computes.",
     ["configurations", "histories", "inputs"],
     "all public kernel generators x precision x thread counts x fixed/free size x layout, and all generate/call interleavings of two or more differently configured kernels",
     "Tests run each generator with one thread count and fixed size only (or free only), one kernel at a time; no test mixes configurations in one process or uses strided arrays or non-square fixed sizes.",
     ["sopht/numeric/eulerian_grid_ops/", U + "pyst_kernel_config.py", U + "precision.py"],
     [("kernel configuration", U + "pyst_kernel_config.py:get_pyst_kernel_config"), ("grid_info strings", S2 + "diffusion_flux_2d.py")])

prop("S02", "Threaded kernels are race-free: every thread schedule gives one result",
     "When a kernel runs with several threads, no memory location is written by one thread and read or written by another within one parallel region, all grid points are covered exactly once by the threads together, and therefore every interleaving and every assignment of threads yields the serial result.",
     ["schedules", "configurations"],
     "all interleavings of the parallel regions of every public multi-threaded kernel, for all team sizes up to a bound (including more threads than rows)",
     "A test run sees one interleaving chosen by the OS, usually with one thread-friendly shape; races and schedule-dependent results cannot be excluded by repeating it.",
     ["sopht/numeric/eulerian_grid_ops/", U + "pyst_kernel_config.py"],
     [("OpenMP parallel loops generated from the stencils", U + "pyst_kernel_config.py"), ("independent output/input fields per kernel", S3 + "laplacian_filter_3d.py")])

prop("S03", "Operations write only their outputs, inside the given array views",
     "Every kernel and solver leaves its input arrays bitwise unchanged, writes only to its documented outputs and scratch arguments, and never touches memory outside the views it was given, including when the view is a window into a larger array. "
     "Two independently created kernels or solvers share no hidden mutable state: interleaving their use gives what each gives alone.",
     ["inputs", "configurations", "histories"],
     "all public kernels and solvers, all shapes, windows into larger arrays, all interleavings of calls on two instances",
     "Tests only compare output values; they never look at inputs, surrounding memory, or a second instance.",
     ["sopht/numeric/eulerian_grid_ops/"],
     [("iteration bounds and ghost layers", S2 + "elementwise_ops_2d.py"), ("solver-owned buffers", P3 + "UnboundedPoissonSolverPYFFTW3D.py")])

prop("I01", "Saving then loading restores every registered field, grid and time exactly",
     "For every set of registered Eulerian and Lagrangian scalar and vector fields (any shapes, number of grids, number of nodes including node count equal to the dimension, same field names on different grids, several registration calls), saving and then loading into an equally registered object restores every field, every Lagrangian grid, its connectivity and the time stamp bit for bit. "
     "Saving does not change the fields, the file reflects the field values at the time of the save, and saving to an existing file, in any order with other saves and loads, replaces its content completely. "
     "Any file name works, whatever its extension or directory.",
     ["histories", "configurations", "inputs"],
     "all operation sequences (register, mutate, save to one of several files, load) up to a depth, all field-kind/shape/precision combinations of an alphabet, all file-name forms",
     "Tests do one save and one load of one configuration with file names ending in .h5; node count is never equal to the dimension, names never repeat across grids, and files are never overwritten.",
     [U + "IO.py"],
     [("save", U + "IO.py:IO._save"), ("load", U + "IO.py:IO.load"), ("registration", U + "IO.py:IO.add_as_lagrangian_fields_for_io")],
     [("field/grid registries", "dictionaries shared by save and load", U + "IO.py:IO.__init__")])

prop("I02", "Loading refuses files that do not match what is registered",
     "Loading raises an error, and never returns normally, when the file lacks a registered Eulerian field, Lagrangian grid or Lagrangian field, holds it as the other kind (scalar versus vector), or when the stored grid origin, spacing or size, or the number of Lagrangian nodes, differ from the registered ones. "
     "Registering fields before the Eulerian grid exists, or with a shape that is neither a scalar nor a vector on the grid, also raises an error.",
     ["configurations", "histories"],
     "all single deviations (drop, rename, change kind, change size, change origin/spacing) between the registration saved and the registration loaded, for every base configuration of an alphabet",
     "Tests try a few missing-field cases in one configuration; size changes that broadcast silently and kind changes are not tried.",
     [U + "IO.py"],
     [("presence assertions and parameter comparison", U + "IO.py:IO.load"), ("shape classification", U + "IO.py:IO.add_as_eulerian_fields_for_io")])

prop("I03", "Every dataset named in a written XDMF file exists with the stated shape",
     "After a save with at least one Eulerian (or Lagrangian) field, an XDMF description exists for the Eulerian grid (and for each Lagrangian grid) next to the data file; every data item in it refers to an existing dataset of the saved file with the dimensions written in it, every registered field is listed exactly once, and origin, spacing, time and connectivity agree with what was saved. "
     "Writing descriptions never destroys or replaces the data file or the description of another grid or another save.",
     ["configurations", "histories"],
     "all field-kind/grid combinations of an alphabet in 2D and 3D, all file-name forms, sequences of saves to different files",
     "No test reads the description files at all.",
     [U + "IO.py"],
     [("Eulerian description", U + "IO.py:IO.generate_xdmf_eulerian"), ("Lagrangian description", U + "IO.py:IO.generate_xdmf_lagrangian")])

prop("I04", "A crash or write error during save is never mistaken for a good file",
     "If the process dies at any point during a save (the writes issued so far having reached the file, the last one possibly torn), loading the target afterwards either raises an error or returns exactly the data and time of that save, or of the complete earlier save if the file was not yet touched. "
     "A write, truncate or open error reported by the operating system at any point makes the save raise; it is never swallowed.",
     ["crash_points", "fault_sequences"],
     "all prefixes of the file-system call sequence of a save (onto a new file and onto an existing older checkpoint), torn last writes, and an injected error at each single call",
     "Tests never interrupt a save or inject an I/O error.",
     [U + "IO.py"],
     [("single open-write-close of the data file", U + "IO.py:IO._save")])

prop("L01", "Interpolation support and weights form a partition of unity",
     "For every Lagrangian node position at least two cells inside the grid, grid spacing, coordinate shift and precision, the support consists of the nearest lower grid index in each direction and the signed distances to the four grid points around the node along each axis, and the weights (cosine or Peskin) are the tensor product of the one-dimensional kernel values there. "
     "The weights are non-negative and sum to one after multiplication by the cell volume (and Peskin weights have zero first moment), for every sub-cell position including exactly on grid points.",
     ["inputs", "configurations"],
     "all sub-cell positions on a dense dyadic lattice per axis including cell boundaries, all combinations across axes, several nodes at once, 2D/3D, both kernels, precisions, spacings, shifts",
     "Tests place nodes at one fixed sub-cell offset with one spacing; the numba-compiled module is not even importable in the baseline environment.",
     [IB + "EulerianLagrangianGridCommunicator2D.py", IB + "EulerianLagrangianGridCommunicator3D.py"],
     [("support kernel", IB + "EulerianLagrangianGridCommunicator2D.py:generate_local_eulerian_grid_support_of_lagrangian_grid_kernel_2d"), ("weights kernels", IB + "EulerianLagrangianGridCommunicator3D.py:generate_peskin_interpolation_weights_kernel_3d")])

prop("L02", "Interpolation and spreading are adjoint, additive and conserve totals",
     "Eulerian-to-Lagrangian interpolation gives each node the weighted sum of the grid values in its support times the cell volume (exact for constant fields), and Lagrangian-to-Eulerian spreading adds each node's value times its weights to the grid points of its support and nothing elsewhere, accumulating over nodes with overlapping support and over previous grid content. "
     "The two are adjoint up to the cell volume, so spreading conserves the total of the spread quantity; scalar and vector variants agree component by component.",
     ["inputs", "histories", "configurations"],
     "all node placements from an alphabet (overlapping, coincident, distinct), impulses at every grid point and node, scalar/vector, 2D/3D, non-square grids, node counts from one, sequences of spreads",
     "Tests use one placement with constant or random fields on a square grid; overlapping supports, prior content and adjointness are not examined, and the tests do not run in the baseline environment.",
     [IB + "EulerianLagrangianGridCommunicator2D.py", IB + "EulerianLagrangianGridCommunicator3D.py"],
     [("interpolation kernels", IB + "EulerianLagrangianGridCommunicator2D.py"), ("spreading kernels", IB + "EulerianLagrangianGridCommunicator3D.py")])

prop("L03", "Virtual boundary forcing follows its penalty law over every call history",
     "Over any sequence of interaction and time-step calls, the position mismatch is the initial zero plus the sum of dt times the velocity mismatch of the latest interaction at each time step, the velocity mismatch is interpolated flow minus body velocity, the Lagrangian force is stiffness times position mismatch plus damping times velocity mismatch, and the clock is start time plus the sum of steps. "
     "The Eulerian forcing array receives exactly the spread force: replacing its content when reset is enabled and adding to it when disabled; computing the force on the body alone changes no Eulerian array. "
     "Flow, body position and body velocity inputs are never modified, and separate forcing objects do not influence each other.",
     ["histories", "inputs", "configurations"],
     "all call sequences up to a depth over interaction (several flows/bodies), body-only force, and time steps (several dt), 2D/3D, reset on/off, several node counts, two interleaved objects",
     "Tests call each method once or in one fixed order; no history is explored, and the tests do not run in the baseline environment.",
     [IB + "VirtualBoundaryForcing.py"],
     [("interaction", IB + "VirtualBoundaryForcing.py:VirtualBoundaryForcing.compute_interaction_force_on_eul_and_lag_grid"), ("time step", IB + "VirtualBoundaryForcing.py:VirtualBoundaryForcing.time_step")],
     [("position mismatch, velocity mismatch, time", "state carried between calls", IB + "VirtualBoundaryForcing.py:VirtualBoundaryForcing.__init__")])

prop("L04", "Brinkmann boundary forcing penalises and spreads exactly, any history",
     "Each interaction call interpolates the flow to the nodes, blends it implicitly with the body velocity by the coefficient times dt, spreads the resulting velocity change (scaled by the cell volume) onto the Eulerian flux, and reports the Lagrangian forcing as cell volume times that change over dt. "
     "The Eulerian flux content is replaced when reset is enabled and added to when disabled, the result does not depend on earlier calls otherwise, and inputs are never modified.",
     ["histories", "inputs", "configurations"],
     "all call sequences up to a depth over flows, bodies and dt, 2D/3D, reset on/off, coefficients including zero",
     "Tests call each method once in one fixed order and do not run in the baseline environment.",
     [IB + "experimental/BrinkmannBoundaryForcing.py"],
     [("interaction", IB + "experimental/BrinkmannBoundaryForcing.py")])

prop("R01", "Unsupported options are rejected, supported ones keep their precision",
     "Every generator and constructor that documents a closed set of options (field type, filter type, interpolation kernel, grid dimension, zone width, filter order, number of components, precision name, real type of the kernel configuration) raises for every value outside the set and accepts every value inside it. "
     "The named precisions map to 32- and 64-bit reals, tolerances scale with that precision's machine epsilon, and generated Eulerian kernels reject arrays of the wrong precision or of mismatched extents instead of computing on them.",
     ["configurations", "inputs"],
     "all public generators/constructors x a menu of invalid and valid option values, all wrong-dtype and wrong-shape argument positions",
     "Tests check a handful of invalid options; most generators' rejections and all wrong-dtype/shape calls are untested.",
     [U + "precision.py", U + "pyst_kernel_config.py", S2, S3, IB],
     [("precision helpers", U + "precision.py"), ("option assertions", S3 + "laplacian_filter_3d.py")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
