"""property metadata; tools/gen.py writes properties.jsonl and MANIFEST.json from it"""
P = []


def prop(id, title, statement, files, mech, over=("inputs", "configurations"), text="", why="", level="proof", note="", na=None, state=()):
    P.append(dict(id=id, title=title, statement=statement, files=list(files), mech=list(mech), over=list(over), text=text, why=why, level=level, note=note, na=na))


NOTE = ("Postconditions discharged for all sizes, inputs and iterations by a deductive verifier over the current source (Fortran parsed and symbolically executed; loops summarised, not unrolled to a bound); "
        "assumes exact real arithmetic and unbounded integers, in-bounds array accesses, and the trusted front end (cross-checked by executing the compiled routines against the same contracts). "
        "Contracts the verifier does not decide in its budget are decided by a bounded replay and reported as such in the evidence.")

B = "src/particle_pushers/"
prop("C01", "Momentum pushes solve the relativistic Lorentz force scheme",
     "For every particle, the Boris momentum push (plain and blocked) returns the exact solution of the time-centred relativistic Lorentz equation with its magnetic rotation taken at the mid-step Lorentz factor, the Vay push (full and split halves) returns the exact solution of its velocity-averaged momentum balance, and the separate electric and magnetic pushes do a pure kick and a norm-preserving rotation. The returned inverse Lorentz factor is the one of the returned momentum.",
     [B + "boris_pusher/boris_3d.F90", B + "vay_pusher/vay_3d.F90"],
     [("Boris push", B + "boris_pusher/boris_3d.F90: pxr_boris_push_u_3d, pxr_boris_push_u_3d_block, pxr_epush_v, pxr_bpush_v"), ("Vay push", B + "vay_pusher/vay_3d.F90: pxr_ebcancelpush3d")],
     text="every particle count, momentum, field, charge, mass, time step and block size", why="the tests push a fixed random set and compare pushers with each other or with a coarse tolerance; they cannot settle the identity for all momenta and fields")
D = "src/particle_deposition/charge_deposition/"
prop("C02", "3D charge deposition puts every particle's spline weight on the right nodes",
     "After a 3D charge deposition of order 1, 2 or 3 (scalar or vectorised variant), every node of the guarded grid holds its previous value plus the sum over all particles of charge times weight over cell volume times the tensor-product B-spline of that order evaluated at the node-particle distance; hence the deposited charge equals the particles' charge and variants agree.",
     [D + "charge_deposition_3d.F90"], [("per-order kernels", D + "charge_deposition_3d.F90")],
     text="every particle count and position inside the tile, weight, charge, grid shape, guard width, spacing and vector length", why="tests compare the sum of variants on one fixed grid and particle set; an error on a boundary cell, remainder block or guard width is not exercised")
prop("C03", "Position push moves particles by exactly velocity times time step",
     "Every position push (3D and 2D) advances each coordinate of each particle by momentum times inverse Lorentz factor times the time step and changes nothing else, and the inverse Lorentz factor computed from a momentum is one over the square root of one plus its square over the speed of light squared.",
     [B + "boris_pusher/boris_3d.F90", B + "boris_pusher/boris_2d.F90"], [("position push, gamma", B + "boris_pusher/boris_3d.F90: pxr_pushxyz, pxr_set_gamma; boris_2d.F90")],
     text="every particle count, momentum and time step", why="tests check one random particle set in 3D through whole-loop energy totals; the 2D pushes are untested")
G = "src/field_gathering/energy_conserving/"
prop("C04", "3D field gathering interpolates each field component at the particle",
     "For every particle inside the tile, a 3D gather of order 1, 2 or 3 (scalar, arbitrary-order and vectorised variants, lower order in the staggered direction or not) adds to each of the six particle field components exactly the tensor-product B-spline interpolation of that component taken at its own staggered (or nodal) grid positions. Hence constant fields are gathered exactly and the variants agree.",
     [G + "field_gathering_o1_3d.F90", G + "field_gathering_o2_3d.F90", G + "field_gathering_o3_3d.F90", G + "field_gathering_on_3d.F90"],
     [("per-order kernels", G + "field_gathering_o3_3d.F90: geteb3d_energy_conserving_vecv4_3_3_3"), ("arbitrary order", G + "field_gathering_on_3d.F90")],
     text="every particle count and position, every field array and its guard width, grid spacing, vector length", why="tests compare sums of variants on one grid; a wrong node, weight or remainder block in one branch averages out or is never taken")
prop("C05", "2D field gathering interpolates each field component at the particle",
     "For every particle inside the tile, a 2D (x,z) gather of order 1, 2 or 3 (scalar, arbitrary-order and vectorised variants, lower order in the staggered direction or not) adds to each of the six particle field components exactly the tensor-product B-spline interpolation of that component taken at its own staggered (or nodal) grid positions. Hence constant fields are gathered exactly and the variants agree.",
     [G + "field_gathering_o1_2d.F90", G + "field_gathering_o2_2d.F90", G + "field_gathering_o3_2d.F90", G + "field_gathering_on_2d.F90"],
     [("per-order kernels", G + "field_gathering_o3_2d.F90: pxr_geteb2dxz_energy_conserving_vect_3_3"), ("arbitrary order", G + "field_gathering_on_2d.F90")],
     text="every particle count and position, every field array and its guard width, grid spacing, vector length", why="tests compare sums of variants with the lower-order option only; four routines were wrong in the other branch and no test saw it")

J = "src/particle_deposition/current_deposition/"
prop("C06", "Direct current deposition puts every particle's current on the staggered nodes",
     "After a direct (momentum-based) current deposition of order 1, 2 or 3 in 3D or 2D, every node of each current component holds its previous value plus the sum over all particles of charge times weight over cell volume times that velocity component times the tensor-product B-spline taken at the position half a step earlier, staggered by half a cell along the component's own direction. No particle is lost, and nothing else changes.",
     [J + "direct/direct_current_deposition_3d.F90", J + "direct/direct_current_deposition_2d.F90"], [("direct deposition kernels", J + "direct: depose_jxjyjz_scalar_N_N_N, depose_jxjyjz_scalar2d_N_N_N, depose_jxjyjz_vecHVv")],
     text="every particle count, position and velocity below one cell per step, weight, grid shape and spacing", why="tests compare the sums of variants on one particle set; a wrong node or weight that keeps the sum is not seen", note=NOTE + " The three vectorised variants are decided by a bounded replay only.")
prop("C07", "Esirkepov current deposition is the charge-conserving one",
     "After an Esirkepov deposition of order 1, 2 or 3 in 3D or 2D, every node of each current component holds its previous value plus the sum over all particles of the published decomposition of the particle's motion: the prefix sum of the difference of the old and new splines along the component's direction times the averaged splines of the other directions. Hence the divergence of the deposited current balances the change of the deposited charge exactly.",
     [J + "esirkepov/esirkepov_3d.F90", J + "esirkepov/esirkepov_2d.F90"], [("Esirkepov kernels", J + "esirkepov: depose_jxjyjz_esirkepov_N_N_N, pxr_depose_jxjyjz_esirkepov2d_N_N")],
     text="every particle count, position and velocity below one cell per step, weight, grid shape and spacing", why="tests compare the sums of variants on one particle set; particles crossing a cell boundary in each direction, and uninitialised outer nodes, are not settled by sums", note=NOTE + " The 3D kernels of order 2 and 3 are decided by a bounded replay only (thorough proves order 2 in part).")
M = "src/field_solvers/Maxwell/"
prop("C08", "Finite-difference Maxwell pushes apply the discrete curl everywhere in their box",
     "Each finite-difference push of the electric or magnetic field (arbitrary order staggered or nodal in 3D and 2D, second-order Yee in 3D, 2D and cylindrical coordinates, Cole-Karkkainen-Cowan stencils, and the divergence-cleaning terms) leaves every node outside its box unchanged and adds at every node inside exactly the discrete curl (or gradient) of the source field with the given coefficients, minus the current term where there is one.",
     [M + "yee_solver/yee.F90", M + "karkkainen_solver/karkkainen.F90"], [("Yee and arbitrary-order pushes", M + "yee_solver/yee.F90"), ("CKC pushes", M + "karkkainen_solver/karkkainen.F90")],
     text="every grid size, guard width, stencil order, coefficient, box and field content", why="the Maxwell tests run one plane wave for a few steps with a coarse tolerance", note=NOTE)
prop("C10", "Finite-difference weights and stencil filters are the requested ones",
     "The finite-difference weights of every even order up to 16, staggered or nodal, are exactly the centred first-derivative weights of that order (they differentiate polynomials up to that degree exactly), and the Godfrey filter along z applies its stencil symmetrically at every node of its range in 2D and 3D.",
     ["src/submain.F90", "src/filtering/nci_godfrey_corr.F90"], [("weights", "src/submain.F90: FD_weights"), ("filter", "src/filtering/nci_godfrey_corr.F90: apply_godfrey_filter_z_2d, apply_godfrey_filter_z_3d")],
     text="every even order up to 16, both grids; every grid size and stencil for the filters", why="tests use one order; the weights of order 6 and above were wrong and no test saw it", note=NOTE)
prop("C11", "2D and r-z charge deposition put every spline weight on the right nodes",
     "After a 2D (x,z) charge deposition of any orders from 0 to 3, at the current or the previous position, every node holds its previous value plus the sum over all particles of charge times weight over cell area times the product of the B-splines of those orders. In r-z the radial distance and the near-axis Davoine weights are used, and the volume scaling divides every ring by its own volume, with the guard cells folded back over the axis.",
     [D + "charge_deposition_2d.F90"], [("2D deposition", D + "charge_deposition_2d.F90: pxr_depose_rho_n_2dxz, pxr_depose_rhoold_n_2dxz"), ("ring volumes", "apply_rz_volume_scaling_rho")],
     text="every particle count, position, weight, order, grid shape and spacing", why="the 2D and r-z depositions have no test", note=NOTE)

NOTE_C = ("Postconditions discharged for all sizes, inputs and iterations by a deductive verifier over the LLVM IR that clang emits from the current headers through thin entry points (symbolic execution, loop invariants, z3 and a polynomial normaliser); memory accesses, ownership and releases are obligations too. "
          "Assumes exact real arithmetic, no integer overflow, allocation that succeeds, and the trusted front end (cross-checked by running the compiled entry points against the same contracts). "
          "Contracts the verifier does not decide in its budget are decided by a bounded replay and reported as such in the evidence.")
Q = "src/multi_physics/QED/src/"
prop("Q01", "The quantum parameter chi is the Lorentz invariant of momentum and field",
     "For every momentum, electric and magnetic field and unit convention, the quantum parameter of a lepton is its Lorentz factor times the norm of the perpendicular force field over the Schwinger field, and that of a photon is the same expression for a massless particle of that momentum. It is never negative, vanishes for a zero momentum, depends on the reference length only in normalised units.",
     [Q + "chi_functions.hpp", Q + "vec_functions.hpp"], [("chi of photons and leptons", Q + "chi_functions.hpp: chi_photon, chi_lepton")],
     text="every momentum, electric and magnetic field, reference length, both unit conventions", why="the tests compare a handful of momenta and fields with tabulated numbers", note=NOTE_C)
prop("Q02", "3-vector algebra and fixed-size arrays compute the exact componentwise results",
     "Norms, dot and cross products, products by and divisions by a scalar, sums and differences of 3-vectors equal their componentwise definitions for every operand and leave the operands unchanged. A fixed-size array keeps its elements in order, is copied by value and spans exactly its elements.",
     [Q + "vec_functions.hpp", Q + "picsar_array.hpp"], [("vector operations", Q + "vec_functions.hpp"), ("fixed-size array", Q + "picsar_array.hpp")],
     text="every operand", why="the tests evaluate each operation on one pair of vectors", note=NOTE_C)
prop("Q03", "Dynamic vectors copy, move, resize and release their storage correctly",
     "A dynamic vector that owns its storage is copied by value, moved by handing its storage over, keeps its leading elements when resized, survives assignment to itself, and releases every block exactly once; a vector built on caller memory stays a view of it, never releases it and refuses to be resized. Element access, the first and last elements and iteration reach exactly the elements.",
     [Q + "picsar_vector.hpp"], [("dynamic vector", Q + "picsar_vector.hpp: constructors, assignments, resize, accessors")],
     over=("inputs", "histories"), text="every size, content, element index, and every sequence of the operations covered by the entry points", why="no test of the repository exercises the vector on its own; ownership errors and leaks are invisible to value comparisons", note=NOTE_C)
prop("Q04", "One-dimensional lookup tables interpolate linearly between neighbouring nodes",
     "For every table of increasing coordinates and every query point within their range, both interpolation methods (general and equispaced) of a one-dimensional table return the straight-line interpolation between the two nodes around the point, hence the stored value at every node including the last one, and never read outside the table. Building, copying, moving and assigning a table preserves its coordinates and data, and only an empty one reports not being initialised.",
     [Q + "lookup_tables.hpp"], [("1D table", Q + "lookup_tables.hpp: lookup_1d")],
     text="every table size, coordinates, data and query point", why="the tests query a few interior points; the last node was read out of bounds unnoticed", note=NOTE_C)
prop("Q05", "Two-dimensional lookup tables interpolate linearly in each coordinate",
     "For every table of increasing coordinates and every query within their range, interpolation in a two-dimensional table (general, equispaced, and along the first coordinate at a fixed second index) returns the bilinear (respectively linear) interpolation of the four (two) surrounding entries of the row-major data, hence the stored value at every node, without reading outside the table. Building, copying, moving and assigning preserves coordinates and data.",
     [Q + "lookup_tables.hpp"], [("2D table", Q + "lookup_tables.hpp: lookup_2d")],
     text="every table size, coordinates, data and query point", why="the tests query a few interior points of one table", note=NOTE_C)
prop("Q07", "Spaced-point generators cover the interval exactly with the promised spacing",
     "Linearly and logarithmically spaced point generators return the requested number of points starting at the minimum, ending exactly at the maximum and equally spaced (respectively in constant ratio), and return no points for an invalid request. The mixed generator is geometric up to a tenth of the maximum, linear up to nine tenths and geometric up to the maximum, which it never exceeds.",
     [Q + "utilities.hpp"], [("generators", Q + "utilities.hpp: generate_lin_spaced_vec, generate_log_spaced_vec, generate_log_lin_log_spaced_vec")],
     text="every size, minimum and maximum", why="the tests check one size each; sizes not a multiple of three were wrong", note=NOTE_C)
prop("Q08", "Bisection search and Poisson sampling return the defining index",
     "The binary search returns, for every sorted range, the first position whose element exceeds the value (the end if there is none). Poisson sampling returns the smallest count whose cumulative probability for that mean is not below the given uniform number.",
     [Q + "utilities.hpp"], [("search, sampling", Q + "utilities.hpp: picsar_upper_bound, poisson_distrib")],
     text="every sorted range and value; every positive mean and uniform number", why="the tests use one array and statistical moments", note=NOTE_C)

BW, QS, SC = Q + "breit_wheeler_engine.hpp", Q + "quantum_sync_engine.hpp", Q + "schwinger_pair_engine.hpp"
prop("Q09", "Breit-Wheeler rate, optical depth decay and conversion event of a photon",
     "A photon's Breit-Wheeler pair production rate is the prefactor times the table value at its quantum parameter (interpolated in log space inside the table, by the small and large parameter asymptotes outside it), and zero for a zero parameter or energy. Each step subtracts rate times step from the optical depth; a conversion is reported exactly when the result is negative, at the time inside the step when it reached zero, and photons below the threshold are left alone. Initial optical depths follow the exponential law of the uniform number given.",
     [BW, Q + "breit_wheeler_engine_ctrl.h"], [("rate, event, optical depth", BW + ": internal_interp_dN_dt, internal_evolve_opt_depth_and_determine_event, internal_get_optical_depth")],
     over=("inputs", "configurations"), text="every momentum, field, time step, optical depth, table and threshold, both unit conventions", why="the tests compare a few rates with tabulated numbers and one event", note=NOTE_C)
prop("Q10", "Synchrotron rate, optical depth decay and emission event of a lepton",
     "A lepton's photon emission rate is the prefactor times the table value at its quantum parameter (interpolated in log space, the boundary value outside the table), and zero for a zero parameter or energy. Each step subtracts rate times step from the optical depth; an emission is reported exactly when the result is negative, at the time inside the step when it reached zero, and leptons below the threshold are left alone. Initial optical depths follow the exponential law of the uniform number given.",
     [QS, Q + "quantum_sync_engine_ctrl.h"], [("rate, event, optical depth", QS + ": internal_interp_dN_dt, internal_evolve_opt_depth_and_determine_event, internal_get_optical_depth")],
     over=("inputs", "configurations"), text="every momentum, field, time step, optical depth, table and threshold, both unit conventions", why="the tests compare a few rates with tabulated numbers and one event", note=NOTE_C)
prop("Q11", "Breit-Wheeler pairs share the photon's energy, direction and weight",
     "For every photon, table and sampling, the energy fraction of each generated pair is the inverse of the tabulated cumulative distribution at the given uniform number (mirrored for numbers above one half), electron and positron fly along the photon's direction, their Lorentz factors add up to the photon's energy in units of the electron rest energy, and each carries the photon's weight divided by the sampling.",
     [BW], [("pair generation", BW + ": internal_generate_breit_wheeler_pairs")],
     over=("inputs", "configurations"), text="every momentum, field, weight, sampling, uniform number and table, both unit conventions", why="the tests generate one set of pairs and check its sums; photons sitting on a node of the table gave NaN momenta unnoticed", note=NOTE_C)
prop("Q12", "Synchrotron photons follow the table and the emitter recoils by their momentum",
     "For every lepton, table and sampling, each emitted photon's energy fraction is the inverse cumulative distribution of the table at the given uniform number, its momentum is that fraction of the lepton's kinetic energy along the lepton's direction, and its weight is the lepton's divided by the sampling. The lepton's momentum drops by the weighted sum of the emitted momenta.",
     [QS], [("photon generation", QS + ": internal_generate_photons_and_update_momentum")],
     over=("inputs", "configurations"), text="every momentum, field, weight, sampling, uniform number and table, both unit conventions", why="the tests check one emission", note=NOTE_C)
prop("Q13", "Schwinger pair counts and rates follow the invariant field strengths",
     "For every electromagnetic field the Schwinger pair production rate is the closed form of the two field invariants, and zero without an electric-like invariant. With rate times cell volume times time step as the expected number, the single-pair mode reports a pair exactly when the uniform number is below it and the multiple-pair mode returns the Poisson sample of that mean; either way the weight is one over the cell volume. Positions are drawn uniformly in the unit cell and the engine keeps the reference length it was given (one in SI units) when copied or moved.",
     [SC], [("rates and counts", SC + ": internal_compute_schwinger_pair_production_rate, internal_generate_pairs_single, internal_generate_pairs_multiple, get_new_pair_position")],
     over=("inputs", "configurations"), text="every field, cell size, time step, uniform number, both unit conventions", why="the tests compare a few field configurations with tabulated numbers; the cell size was silently dropped by the engine's methods", note=NOTE_C)
prop("Q06", "Lookup tables written to a stream are read back identically",
     "A one- or two-dimensional lookup table written to a binary stream and read back, into a fresh table or over one that already held another, has the same sizes, the same coordinates and the same data and counts as initialised. Several tables written one after the other are read back in order, each taking exactly the bytes it wrote.",
     [Q + "lookup_tables.hpp"], [("table files", Q + "lookup_tables.hpp: write_on_stream_bin, read_from_stream_bin")],
     over=("inputs", "histories"), text="every table size and content, every previous content of the reading table", why="no test writes or reads a table", note=NOTE_C)
prop("Q14", "Integrands, total rates and cumulative distributions are the published formulas",
     "The functions that fill the tables evaluate the published Breit-Wheeler and quantum synchrotron expressions: the argument of the Bessel functions, the integrand, the total rate function as an integral over the whole energy range and the cumulative distribution as the partial integral over the total. A rate without table is prefactor times that total, and an optical depth evolved without table obeys the same event rule as with a table.",
     [BW, QS], [("integrands and integrals", BW + ": compute_x, compute_inner_integral, compute_TT_integrand, compute_TT_function, compute_cumulative_pair; quantum_sync_engine.hpp: compute_KK_integrand, compute_KK_function, compute_cumulative_phot_em")],
     over=("inputs", "configurations"), text="every quantum parameter, fraction, energy, time step and optical depth, both unit conventions; with the numerical integration rule assumed exact", why="the tests compare a few values with tabulated numbers at percent tolerance", note=NOTE_C)
prop("Q16", "Engines keep parameters, tables and generator through copy, move and files",
     "A Breit-Wheeler or synchrotron engine holds the parameters, reference length and generator it was built with. Copying, moving and assigning it, exporting its innards and writing its tables to files and reading them back into another engine leave an engine that gives the same parameters, tables and optical depths.",
     [BW, QS], [("engine objects", BW + ": constructors, assignment, export_innards, write/read tables, get_optical_depth; quantum_sync_engine.hpp: same")],
     over=("inputs", "histories", "configurations"), text="every parameter set, table and seed, both unit conventions", why="the tests never copy or assign an engine, nor write or read its tables", note=NOTE_C)
prop("Q15", "The tables an engine computes hold the right values at the promised points",
     "For every valid set of control values, the rate table computed by an engine holds the logarithm of the total rate at logarithmically spaced parameters. The Breit-Wheeler distribution table holds, for each parameter and evenly spaced energy fractions up to one half, the logarithm of the cumulative probability (zero and one half at the ends); the synchrotron one holds, for evenly spaced probabilities (pulled in from the ends by a factor ten), the logarithm of the energy fraction with that cumulative probability.",
     [BW, QS], [("table builders", BW + ": compute_dN_dt_lookup_table, compute_cumulative_pair_table; quantum_sync_engine.hpp: compute_dN_dt_lookup_table, compute_cumulative_phot_em_table")],
     over=("inputs", "configurations"), text="every range and number of points; rates, cumulative distributions and the root finder enter through their contracts", why="the tests compute one rate table, compare three interpolated rates at percent tolerance and never compute a distribution table", note=NOTE_C)
prop("Q17", "Constants, unit systems and default control values are the documented ones",
     "The physical constants are the CODATA 2014 values, the derived ones (classical electron radius, Schwinger field, rate coefficients) follow from them by their definitions, and in normalised units the speed of light and electron mass are one and every coefficient is the SI one expressed in the reference length. An engine built without control values uses the documented thresholds, table ranges and sizes.",
     [Q + "qed_commons.h", Q + "breit_wheeler_engine_ctrl.h", Q + "quantum_sync_engine_ctrl.h"], [("constants", Q + "qed_commons.h"), ("defaults", Q + "breit_wheeler_engine_ctrl.h, quantum_sync_engine_ctrl.h")],
     over=("configurations",), text="both unit conventions, both engines", why="tests compare rates with percent tolerance, which hides a wrong digit of a constant", note=NOTE_C)
prop("Q18", "The random generator wrapper gives reproducible, independent sequences",
     "A generator wrapper built from a seed or from a standard generator gives numbers uniform on the interval asked for and exponential of the rate asked for, each made from the next number of that seed's sequence. Copies, moved and assigned wrappers continue the sequence where the original stood and do not disturb it or each other.",
     [Q + "rng_wrapper.hpp"], [("wrapper", Q + "rng_wrapper.hpp: stl_rng_wrapper")],
     over=("inputs", "histories"), text="every seed, number of draws, interval and rate", why="the tests check bounds and moments of one sequence", note=NOTE_C)
prop("Q19", "Integration, root and Bessel wrappers solve the problem they were given",
     "The finite-interval wrappers integrate the function they are given from the lower to the upper bound, the infinite one from its bound to infinity, the root finder returns a point of the bracket found for the function given in the direction given, and the Bessel wrapper is the modified Bessel function of the second kind of that order and argument.",
     [Q + "quadrature.hpp", Q + "special_functions.hpp", Q + "utilities.hpp"], [("wrappers", Q + "quadrature.hpp: quad_a_b, quad_a_b_s, quad_a_inf; special_functions.hpp: k_v; utilities.hpp: bracket_and_solve_root")],
     over=("inputs",), text="every interval, quadratic or exponentially damped integrand, cubic root problem, order and argument; the numerical library is assumed to meet its documentation", why="the tests integrate two fixed functions", note=NOTE_C)

# ---- guarantees of the code base that this technique does not reach here
prop("N01", "Spectral Maxwell solvers advance the fields exactly in time",
     "The pseudo-spectral solvers (global, local and hybrid) advance every Fourier mode of the fields by the analytical solution of Maxwell's equations over one step, and a transform followed by its inverse returns the field.",
     ["src/field_solvers/Maxwell/GPSTD_solver/GPSTD.F90", "src/field_solvers/Maxwell/GPSTD_solver/init_kspace_3D.F90"], [("PSATD", "GPSTD.F90")], text="every field and grid", why="tests run one plane wave",
     na="the update is a chain of complex block-matrix products over FFTW arrays reached through pointer components of module data; the verification-condition generator has no complex arithmetic and no contract for FFTW could be discharged, and FFTW/MPI are not installed, so not even a bounded replay can run")
prop("N02", "Exchanges between ranks neither lose nor duplicate particles or field values",
     "After particle and field boundary exchanges, and after dynamic load balancing, every particle is owned by exactly one rank and tile, and every guard cell equals the neighbouring rank's interior value.",
     ["src/boundary_conditions/particle_boundaries.F90", "src/boundary_conditions/field_boundaries.F90", "src/parallelization/mpi/mpi_routines.F90"], [("exchanges", "particle_boundaries.F90, field_boundaries.F90")], text="every decomposition and particle motion", why="needs many ranks",
     na="needs contracts on MPI communication between ranks (histories of messages), which function-by-function deductive contracts over one process do not express, and MPI is not installed here, so the files cannot be compiled or replayed")
prop("N03", "Tile containers keep every particle through insertion, removal and sorting",
     "Adding, removing, moving between tiles and cell sorting of particles preserve the multiset of particles with all their attributes and keep the counters equal to the stored numbers.",
     ["src/housekeeping/sorting.F90", "src/parallelization/tiling/tiling.F90"], [("tiling and sorting", "tiling.F90, sorting.F90")], over=("inputs", "histories"), text="every population and motion", why="tests count particles once",
     na="the containers are arrays of derived types with pointer and allocatable components reached through module state; the verifier's memory model covers arrays and scalars of one routine, not aliasing between such structures, and a hand-written model would be outside this family")
prop("N04", "The complete PIC loop conserves energy and charge over many steps",
     "Over a simulation with periodic boundaries, total energy drifts within the scheme's bound and Gauss's law stays satisfied to rounding.",
     ["src/submain.F90"], [("PIC loop", "submain.F90: step")], over=("inputs", "histories"), text="every plasma and number of steps", why="tests run one plasma",
     na="an error bound over an unbounded number of floating-point steps of the coupled scheme is a statement of numerical analysis, not a postcondition the verifier can discharge; the exact ingredients (pushes, gathers, depositions incl. charge conservation, Maxwell pushes) are C01-C11")
