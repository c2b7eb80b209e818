#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (source of truth for the property texts)."""
import json, os
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": files,
                    "state": state or [],
                    "mechanism": [{"name": a, "where": b} for a, b in mech],
                    "observe_at": observe or [], "hook_needed": hook}})


prop("C01", "Fock basis of a sector is complete, ordered and indexable",
     "For every number of sites and particles, the generated many-body basis of a sector contains every bit pattern with that particle number exactly once, in strictly ascending order, and its length equals the sector dimension reported by the library. Looking up a basis state returns its position and looking up any other bit pattern reports it as absent; the maps between (up, down) positions and the product index, between (nup, ndw) and the sector index, and between an integer and its bit representation (array or string) are mutually inverse. Dimensions are exact for every register that fits the integer type, and an array handed out belongs to the caller: changing it does not change later answers.",
     ["inputs"], "every n (1..16 orbitals and beyond), every particle number, every bit pattern looked up",
     "The only test evaluates one index of one map; enumeration, search and round trips are untested and depend on integer-width effects at particular (n, p).",
     ["edpyt/sector.py", "edpyt/lookup.py", "edpyt/espace.py"],
     [("next-permutation bit trick", "edpyt/sector.py:permutations"), ("binary search", "edpyt/lookup.py:binsearch"),
      ("sector and spin index maps", "edpyt/lookup.py:get_spin_indices,get_state_index,get_sector_index,get_num_spins"),
      ("bit representations", "edpyt/lookup.py:binrep,intrep")],
     ["generate_states", "binsearch", "build_empty_sector", "get_espace_dim"])

prop("C02", "Creation/annihilation operators obey the fermionic algebra",
     "Applied to any bit pattern at any position, the creation and annihilation operators change exactly that bit and return a sign such that the canonical anticommutation relations hold between every pair of positions (including across spins when both spins share one register), creation is the adjoint of annihilation, and the combined hop operator equals creating at one position after annihilating at another. Creating on an occupied or annihilating on an empty level is rejected with an error, and the number and hole tests report exactly the occupation of the level.",
     ["inputs"], "every state and every pair of positions of registers up to 16 levels",
     "The existing tests use hand-picked states; signs must be right for every state and position pair.",
     ["edpyt/operators.py"],
     [("bit flip + parity of the higher levels", "edpyt/operators.py:c,cdg,fsgn"), ("hop parity", "edpyt/operators.py:cdgc,get_parity"),
      ("occupation tests", "edpyt/operators.py:check_full,check_empty")],
     ["c", "cdg", "cdgc", "check_full", "check_empty"])

prop("C03", "Many-body Hamiltonian equals its second-quantised definition",
     "For every sector with fixed (nup, ndw), any real symmetric one-body matrix (spin-independent or spin-dependent) and any symmetric interaction matrix, the assembled operator equals hopping + on-site energies (shifted by the global mu) + U_i n_up n_dw (particle-hole symmetric form when that mode is selected) + 1/2 sum_{i!=j} V_ij (n_i - z_i)(n_j - z_j) of second quantisation, in the basis order of the sector. It is symmetric, and the caller's matrices are neither modified nor left write-protected.",
     ["inputs", "configurations"], "every n, sector, H (2-D or spin resolved), V, and every setting of the global mode, mu and reference charges",
     "One 2-site example with three sectors is tested; signs of long hops, spin-dependent terms, inter-site interaction and the particle-hole mode are not.",
     ["edpyt/build_mb_ham.py", "edpyt/ham_local.py", "edpyt/ham_hopping.py", "edpyt/shared.py"],
     [("diagonal terms", "edpyt/ham_local.py:build_ham_local"), ("hopping matrices", "edpyt/ham_hopping.py:build_ham_hopping"),
      ("assembly", "edpyt/build_mb_ham.py:build_mb_ham")],
     ["build_mb_ham", "todense"])

prop("C04", "Exchange, pair hopping and charge-only sectors are assembled right",
     "With symmetric spin-exchange and/or pair-hopping couplings given alone or together (with or without a density interaction), the assembled sector Hamiltonian equals 1/2 sum_{i!=j,ss'} Jx_ij c+_is c+_js' c_is' c_js + 1/2 sum_{i!=j,s} Jp_ij c+_is c+_i,-s c_j,-s c_js plus the density terms. For inputs without one-body hopping, the spectrum obtained with only the total charge conserved is, charge by charge, the union of the spectra of the (nup, ndw) sectors, also for spin-dependent level energies.",
     ["inputs", "configurations"], "every n, sector, coupling matrices, both symmetries",
     "A single dimer with one coupling value is tested in one symmetry; optional couplings and the charge-only path have no oracle.",
     ["edpyt/ham_non_local.py", "edpyt/ham_local.py", "edpyt/build_mb_ham.py", "edpyt/espace.py"],
     [("exchange and pair hopping", "edpyt/ham_non_local.py:build_ham_non_local"), ("charge-only diagonal", "edpyt/ham_local.py:build_ham_local"),
      ("sector iteration per symmetry", "edpyt/espace.py:build_espace")],
     ["build_mb_ham", "build_espace(symmetry='N')"])

prop("C05", "Matrix-free Hamiltonian product equals the dense operator",
     "For every operator list the library can build and every vector, the matrix-free product equals the dense form of the same operators times the vector, is linear, leaves the input vector and the operators untouched, and returns the same result on repetition and into a caller-supplied output vector. The sparse kernels underneath add exactly (identity x A), (A x identity) or A times the vector to the result for every CSR matrix, including empty rows, empty matrices and rectangular shapes of the spin spaces.",
     ["inputs"], "every set of up/down sparse matrices, diagonal, dense sizes and vectors",
     "Three kernel tests use one 4x4..10x20 random matrix each; empty rows, single-operator lists, output reuse and input preservation are not covered.",
     ["edpyt/matvec_product.py", "edpyt/psparse.pyx", "edpyt/cs_gaxpy.c", "edpyt/ham_hopping.py", "edpyt/ham_local.py", "edpyt/ham_non_local.py"],
     [("product assembly", "edpyt/matvec_product.py:matvec_operator,todense"), ("kernels", "edpyt/psparse.pyx, edpyt/cs_gaxpy.c")],
     ["matvec_operator", "todense", "UPmultiply", "DWmultiply", "Multiply"])

prop("C06", "Native kernels are memory safe and independent of thread schedule",
     "Under any number of worker threads, the compiled sparse-product kernels and the compiled continued fraction return results that do not depend on the thread count or schedule. They never read or write outside the arrays they were given, and no two threads access the same element without order when one of them writes.",
     ["schedules", "inputs"], "every thread count, loop partition and matrix shape (empty rows, one row, more threads than rows)",
     "Tests run each kernel once with the default thread count and no instrumentation.",
     ["edpyt/psparse.pyx", "edpyt/cs_gaxpy.c", "edpyt/cs.h", "edpyt/continued_fraction.pyx", "setup.py"],
     [("parallel loop over rows/blocks", "edpyt/psparse.pyx"), ("row kernels", "edpyt/cs_gaxpy.c"), ("parallel loop over frequencies", "edpyt/continued_fraction.pyx")],
     ["UPmultiply", "DWmultiply", "Multiply", "continued_fraction"])

prop("C07", "Sector eigensolutions are true, ordered, lowest eigenpairs",
     "For every sector and requested number of states k, the solver returns ascending eigenvalues with orthonormal eigenvectors that satisfy the eigenvalue equation of that sector's Hamiltonian and are its k lowest ones, whether the direct or the iterative solver is used. Solving the whole space covers every requested sector exactly once, skips sectors for which zero states are requested, and reports as ground-state energy the minimum over all sectors.",
     ["inputs", "configurations"], "every Hamiltonian, sector dimension on both sides of the solver switch, every k and per-sector request vector",
     "One dimer spectrum is tested; the iterative path is compared once with scipy on a random operator with its own start vector.",
     ["edpyt/espace.py", "edpyt/eigh_arpack.py"],
     [("solver switch", "edpyt/espace.py:solve_sector"), ("reverse-communication ARPACK", "edpyt/eigh_arpack.py:eigsh"),
      ("sector loop", "edpyt/espace.py:build_espace"), ("sector dimensions", "edpyt/espace.py:get_espace_dim")],
     ["solve_sector", "build_espace", "eigsh", "get_espace_dim"])

prop("C08", "Non-interacting limit and symmetries of the spectrum",
     "Without interaction, the spectrum of every sector is exactly the set of sums of nup and ndw distinct one-particle eigenvalues of the one-body matrix, and the spectrum builder for non-interacting particles returns the same from the level energies alone for any number of levels. With interaction, the spectrum is invariant under relabelling of sites, exchanging the spins (with the sectors), and, in the particle-hole symmetric mode on a bipartite lattice, under particle-hole exchange.",
     ["inputs"], "every one-body matrix, interaction and number of levels (including 8 and more)",
     "One random 4-level diagonal case is tested; metamorphic relations over inputs are not.",
     ["edpyt/espace.py", "edpyt/build_mb_ham.py", "edpyt/ham_hopping.py", "edpyt/ham_local.py"],
     [("non-interacting spectrum", "edpyt/espace.py:build_non_interacting_espace"), ("on-site sums", "edpyt/build_mb_ham.py:add_onsites")],
     ["build_espace", "build_non_interacting_espace"])

prop("C09", "Thermal screening and adaptive state counts follow their rules",
     "Screening keeps exactly the eigenstates whose Boltzmann factor relative to the ground state exceeds the cutoff, keeps each kept eigenvalue paired with its own eigenvector, and removes exactly the sectors left with none; the ground state always survives. Adjusting the per-sector state counts after screening raises by one (up to the sector dimension) where all requested states survived, lowers by one (never below one) where fewer survived or the sector vanished, and changes nothing else.",
     ["inputs", "histories"], "every spectrum, temperature, cutoff, set of surviving sectors and repeated application",
     "One dummy three-sector dictionary is tested; pairing of values and vectors and repeated adjust/solve/screen histories are not.",
     ["edpyt/espace.py"],
     [("screening", "edpyt/espace.py:screen_espace"), ("count adjustment", "edpyt/espace.py:adjust_neigsector")],
     ["screen_espace", "adjust_neigsector"])

prop("C10", "Lanczos recursion reproduces the operator it is given",
     "For any real symmetric operator and nonzero start vector, the tridiagonal coefficients returned by the Lanczos recursion are those of the operator in the Krylov space of that vector (first off-diagonal entry = norm of the start vector, low moments of the spectral measure reproduced, lowest eigenvalue converged to the lowest eigenvalue visible from the start vector), and the second pass returns normalised eigenvectors of the operator for converged values. A zero start vector is rejected with the dedicated error instead of returning coefficients. The block recursion returns the symmetric projection of the operator onto orthonormal vectors that span the block Krylov space, also when some of its directions end exactly on the way.",
     ["inputs"], "every operator, start vector (including exact eigenvectors and invariant subspaces), block of start vectors",
     "One random tridiagonal 30x30 matrix is tested for the lowest value only.",
     ["edpyt/lanczos.py", "edpyt/tridiag.py"],
     [("three-term recursion", "edpyt/lanczos.py:sl_step,build_sl_tridiag"), ("second pass", "edpyt/lanczos.py:sl_solve"),
      ("block recursion with deflation", "edpyt/lanczos.py:build_bd_tridiag"), ("orthogonalisation", "edpyt/lanczos.py:gram_schmidt_rows,gram_schmidt_columns")],
     ["build_sl_tridiag", "sl_solve", "build_bd_tridiag", "gram_schmidt_rows"])

prop("C11", "Tridiagonal eigensolver returns the eigenpairs it was asked for",
     "For every real symmetric tridiagonal matrix given by its diagonal and off-diagonal, the solver returns either all eigenpairs or exactly those with the requested index range, in ascending order, with orthonormal eigenvectors that satisfy the eigenvalue equation, and the same values when only eigenvalues are requested. The input coefficient arrays are left unmodified.",
     ["inputs"], "every pair of coefficient arrays (clustered, graded, decoupled blocks), every index range",
     "Exercised only through one Lanczos test for the lowest eigenvalue.",
     ["edpyt/tridiag.py"],
     [("full spectrum (MRRR)", "edpyt/tridiag.py:_solve_full"), ("index range (bisection + inverse iteration)", "edpyt/tridiag.py:_solve_partial")],
     ["eigh_tridiagonal", "egs_tridiag", "gs_tridiag"])

prop("C12", "Exact Green's function equals its Lehmann representation",
     "For every Hamiltonian, temperature, site and spin, the exactly built Green's function equals the Lehmann sum over the thermal ensemble at every complex frequency off the real axis. Its spectral weight sums to one, its imaginary part has the causal sign, its spectral function is nonnegative, and it does not depend on the energy reference supplied.",
     ["inputs"], "every H, V, temperature, site, spin and complex frequency",
     "One non-interacting 3-site case for one site and spin is tested with 0.1 percent tolerance.",
     ["edpyt/gf_exact.py"],
     [("projection of c+ on eigenvectors", "edpyt/gf_exact.py:project_exact_up,project_exact_dw"), ("pole/weight assembly", "edpyt/gf_exact.py:build_gf_exact,Gf")],
     ["build_gf_exact"])

prop("C13", "Lanczos Green's function agrees with the exact one",
     "For every Hamiltonian, temperature, site and spin, the Green's function built by the Lanczos solver, in both its continued-fraction and its spectral form, agrees with the exact thermal Green's function, and its separately returned electron and hole parts add up to it. Building it leaves the supplied eigenspace, Hamiltonian and interaction unchanged, so that repeated or subsequent builds (other site, other spin) from the same eigenspace return the same functions; for a truncated eigenspace it equals the Lehmann sum over exactly the retained states.",
     ["inputs", "histories"], "every H, V, temperature, truncation of the eigenspace, site, spin, representation and order of builds",
     "Two non-interacting/atomic-limit cases are tested, never twice on one eigenspace.",
     ["edpyt/gf_lanczos.py", "edpyt/lanczos.py", "edpyt/continued_fraction.pyx"],
     [("projection", "edpyt/gf_lanczos.py:project_up,project_dw"), ("coefficients", "edpyt/gf_lanczos.py:build_gf_coeff_cf,build_gf_coeff_sp"),
      ("assembly and small-sector path", "edpyt/gf_lanczos.py:build_gf_lanczos")],
     ["build_gf_lanczos"])

prop("C14", "Matrix Green's functions: every element, both builders",
     "For every pair of sites, the exactly built and the Lanczos-built matrix Green's function equal the Lehmann sum <<c_i; c+_j>> over the thermal ensemble, with diagonal elements equal to the single-site functions and with the matrix symmetric in the site indices; the Lanczos electron and hole parts add up to the whole. Without interaction the matrix equals the inverse of (z - H), and sites that do not couple yield zero rather than an error.",
     ["inputs"], "every H, V, temperature, site pair, spin, representation, incl. decoupled sites",
     "No test calls either matrix builder.",
     ["edpyt/gf2_exact.py", "edpyt/gf2_lanczos.py"],
     [("exact matrix", "edpyt/gf2_exact.py:build_gf2_exact"), ("(c_i+c_j) trick", "edpyt/gf2_lanczos.py:build_gf_offdiag,build_gf2_lanczos")],
     ["build_gf2_exact", "build_gf2_lanczos"])

prop("C15", "Compiled continued fraction evaluates the continued fraction",
     "For every list of levels a and weights b (any length from one up) and every complex argument, the compiled continued fraction equals b0/(z-a0-b1/(z-a1-...)) and hence, for weights of a tridiagonal matrix, the corresponding resolvent element. The result has one value per argument in the order given, and neither arguments nor coefficients are modified.",
     ["inputs"], "every coefficient list length and content, scalar and array arguments",
     "One constant-coefficient expansion of pi at z=0 is tested.",
     ["edpyt/continued_fraction.pyx", "edpyt/gf_lanczos.py"],
     [("backward recursion", "edpyt/continued_fraction.pyx:calc")],
     ["continued_fraction"])

prop("C16", "Site occupations are expectation values, and inputs stay untouched",
     "For every set of state vectors, in either memory order, with or without weights, the reported up and down occupations per site and state are the expectation values of the number operators (times the weight), so that for normalised states of a sector they lie in [0,1] and add up to nup and ndw. The thermal occupation is the Boltzmann average over the eigenspace, and the supplied vectors (values and shape) are unchanged afterwards.",
     ["inputs", "histories"], "every sector, vector set, memory order, weight vector, temperature, repeated use of the same vectors",
     "One test checks a mean over identical constant vectors.",
     ["edpyt/observs.py"],
     [("contraction per spin state", "edpyt/observs.py:get_evecs_occupation"), ("thermal average", "edpyt/observs.py:get_occupation")],
     ["get_evecs_occupation", "get_occupation"])

prop("C17", "Occupation from a Green's function equals the thermal filling",
     "For every Green's function that is a sum of simple real poles (weights positive and summing to one for a site; any real weights for a trace, an off-diagonal element or a part of it), the contour integration returns the Fermi-weighted sum of the pole weights at the given chemical potential and temperature within its truncation accuracy, for scalar and array-valued functions and elementwise for a list of chemical potentials. The Matsubara summation returns the same filling for positive weights summing to one, and leaves the chemical potential of the object it was given as it was.",
     ["inputs"], "every set of poles and weights, chemical potential (scalar or array), temperature and number of poles",
     "One four-pole function at the default temperature and mu=0 is tested.",
     ["edpyt/integrate_gf.py"],
     [("poles and residues of the Fermi function", "edpyt/integrate_gf.py:zero_fermi"), ("contour sum", "edpyt/integrate_gf.py:integrate_gf"),
      ("Matsubara sum with tail", "edpyt/integrate_gf.py:matsum_gf")],
     ["zero_fermi", "integrate_gf", "matsum_gf"])

prop("C18", "Chemical potential search meets the requested occupancy",
     "For every Green's function whose occupation is a continuous increasing function of the chemical potential and every occupancy goal reachable inside the bracket, the search returns a chemical potential at which the integrated occupation equals the goal within the solver's tolerance, for scalar and per-site goals. A goal that cannot be reached in the bracket is reported as an error, never answered with an arbitrary value.",
     ["inputs"], "every monotone occupation curve, goal, bracket",
     "No test calls it.",
     ["edpyt/dmft.py", "edpyt/integrate_gf.py"],
     [("root search on the total occupation", "edpyt/dmft.py:adjust_mu")],
     ["adjust_mu"])

prop("C19", "Cotunneling integrals equal the regularised thermal integrals",
     "For every amplitude, level position off resonance, pair of chemical potentials and temperature, the closed-form cotunneling integrals equal the numerical integral over energy of |sum_k A_k/(E - eps_k)|^2 f(E-mu_0)(1-f(E-mu_1)) with the pole contributions removed in the standard way, including the finite limit at equal chemical potentials, which is approached continuously. Exchanging the two chemical potentials multiplies the result by the Boltzmann factor of their difference, and the integrals are quadratic in the amplitudes.",
     ["inputs"], "every amplitude, level, pair of chemical potentials (equal, close, far), temperature; one, two and four-level forms",
     "No test evaluates the integrals.",
     ["edpyt/integrals.py"],
     [("trigamma form", "edpyt/integrals.py:I1"), ("digamma cross term", "edpyt/integrals.py:I2"), ("two and four-level combinations", "edpyt/integrals.py:Gamma2,Gamma4")],
     ["I1", "I2", "Gamma1", "Gamma2", "Gamma4"])

prop("C20", "Sequential tunnelling: rates, conservation and detailed balance",
     "For every central region, coupling to two leads, temperature and bias, the sequential-tunnelling rate matrix has nonnegative off-diagonal entries equal to the golden-rule rates |<m|d|n>|^2 weighted by the lead Fermi factors and summed over leads and spins, and columns that sum to zero. The stationary solution is the normalised nonnegative null vector, at equal chemical potentials it is the Gibbs state and the current is zero, and exchanging the leads together with their chemical potentials reverses the current; the (nup, ndw)-resolved and the charge-only implementations give the same total current, and rates extracted from the cotunnelling amplitudes of a charge sector are the sequential ones. The sectors named as active are exactly the ground-state sectors and those one electron away.",
     ["inputs", "configurations"], "every H, V, lead amplitudes, temperature, bias; both implementations; neighbouring, empty and full charge sectors",
     "The two tests cover single-level Anderson models with hand-made spectra.",
     ["edpyt/sqtunneling.py", "edpyt/sqtnl.py", "edpyt/rates.py"],
     [("transition elements", "edpyt/sqtunneling.py:build_transition_elements, edpyt/sqtnl.py:build_transition_elements"),
      ("rate and transition matrices", "edpyt/sqtunneling.py:build_rate_matrix,build_transition_matrix, edpyt/sqtnl.py:build_rate_and_transition_matrices"),
      ("stationary state", "edpyt/rates.py:stationary_solution")],
     ["build_rate_matrix", "build_transition_matrix", "build_rate_and_transition_matrices", "stationary_solution"])

prop("C21", "Cotunnelling: amplitudes, conservation, detailed balance",
     "For every central region deep in a charge state, the cotunnelling transition amplitude between two of its states equals the second-order sum over electron and hole virtual states (with fermionic signs), and the rate matrices built from it have nonnegative off-diagonal entries and columns that sum to zero. At equal chemical potentials the rates obey detailed balance and the current vanishes; exchanging the leads reverses the current; the (nup, ndw)-resolved and charge-only implementations agree on the same model.",
     ["inputs", "configurations"], "every H, V, lead amplitudes, temperature, bias, charge sector including one below full and one above empty; both implementations and integration methods",
     "The two cotunnelling test files check one spectrum of a single level, or nothing.",
     ["edpyt/cotunneling.py", "edpyt/cotnl.py", "edpyt/integrals.py"],
     [("virtual-state amplitudes", "edpyt/cotunneling.py:project_sector, edpyt/cotnl.py:build_transition_elements"),
      ("rates", "edpyt/cotunneling.py:build_rate_matrix,build_transition_matrix, edpyt/cotnl.py:build_rate_and_transition_matrices")],
     ["build_transition_elements", "build_rate_matrix", "build_rate_and_transition_matrices"])

prop("C22", "Bath fit: correct gradient, never worse, honest result, deterministic",
     "The hybridisation model of the bath fit equals sum_k V_k^2/(i w_n - e_k), its cost is the mean squared deviation over the Matsubara points, and its gradient is the derivative of that cost, in the Python and in the compiled implementation alike. A fit started from given parameters never returns parameters with a larger cost than the start, the compiled fit's reported minimum is the cost at the parameters it returns, a function that the bath represents exactly is a fixed point, and the result depends only on the arguments (same call, same result, also after other fits; the target is not modified and may have any memory layout). Every fit returns to its caller with the best parameters found, also one that does not converge, and the compiled line minimiser brackets and finds the minimum of a unimodal function to its tolerance.",
     ["inputs", "histories"], "every bath size, Matsubara grid, target function, start parameters and sequence of fits in one process",
     "The compiled test program prints a fit of one function from uninitialised memory; nothing asserts gradient, descent or determinism.",
     ["edpyt/fit_cg.py", "edpyt_backend/bath.c", "edpyt_backend/fit.c", "edpyt_backend/frprmn.c", "edpyt_backend/fit_wrap.py", "edpyt/fit_cffi.py"],
     [("model, cost, gradient", "edpyt/fit_cg.py:Delta,DDelta,Chi2,dChi2; edpyt_backend/bath.c"), ("conjugate gradient", "edpyt_backend/frprmn.c, dlinmin.c, dbrent.c, mnbrak.c"),
      ("bindings", "edpyt_backend/fit_wrap.py, edpyt/fit_cffi.py")],
     ["fit_hybrid", "fit"])

prop("C23", "Compiled bath-fit library is free of memory errors and undefined use",
     "For every bath size from one up, number of Matsubara points and finite input, the compiled fitting library never reads or writes outside its arrays, never lets the result depend on uninitialised memory, frees everything it allocates, executes no undefined arithmetic, and reports a failing allocation instead of using it. This holds for its initial-bath, model, gradient, line-search and minimiser routines and for repeated fits of different sizes in one process.",
     ["inputs", "histories"], "every size combination and sequence of calls, including sizes one, two and three",
     "The C programs run once, uninstrumented, with one size.",
     ["edpyt_backend/fit.c", "edpyt_backend/bath.c", "edpyt_backend/frprmn.c", "edpyt_backend/dlinmin.c", "edpyt_backend/dbrent.c", "edpyt_backend/mnbrak.c", "edpyt_backend/f1dim.c", "edpyt_backend/df1dim.c", "edpyt_backend/util.c"],
     [("allocation helpers", "edpyt_backend/util.c"), ("work arrays", "edpyt_backend/fit.c, frprmn.c, dlinmin.c, f1dim.c, df1dim.c, bath.c")],
     ["fit", "init_bath", "eval_delta", "eval_chi2", "eval_dchi2"])

prop("C24", "Initial bath parameters are fully defined, symmetric and in the band",
     "For every bath size and bandwidth, the initial bath has all level energies and couplings set (independent of previous memory content), energies in ascending order inside the band, symmetric about zero for two or more levels, with the band edges included, and all couplings equal and positive. The Python and compiled initialisers agree for every bath size at the common bandwidth, and a supplied parameter array is filled in place.",
     ["inputs"], "every number of bath levels and bandwidth, any previous content of the array",
     "Sizes five and six are tested in Python; the C programs print sizes seven and eight.",
     ["edpyt/fit_cg.py", "edpyt_backend/bath.c"],
     [("bath initialisers", "edpyt/fit_cg.py:get_initial_bath; edpyt_backend/bath.c:init_bath")],
     ["get_initial_bath", "init_bath"])

prop("C25", "Impurity solver satisfies Dyson's equation and known limits",
     "For every discrete bath, interaction and chemical potential, the solved impurity's Green's function, self-energy and hybridisation satisfy G = 1/(z + mu - Delta - Sigma), equal the ground-state Green's function of the star Hamiltonian with those bath parameters, and are causal (Im Sigma <= 0 and Im G <= 0 in the upper half plane). Without interaction the self-energy vanishes, with no bath coupling the atomic limit is reproduced, and fitting and updating write the bath energies, couplings and level into the Hamiltonian that is solved, for each spin separately in the spin-dependent solver.",
     ["inputs", "histories"], "every bath, U, mu, spin treatment and sequence of fit/update/solve calls",
     "No test touches the impurity solver.",
     ["edpyt/dmft.py", "edpyt/nano_dmft.py"],
     [("impurity model", "edpyt/dmft.py:Gfimp,SpinGfimp"), ("list of impurities", "edpyt/nano_dmft.py:Gfimp")],
     ["Gfimp.solve", "Gfimp.Sigma", "Gfimp.free", "SpinGfimp.solve"])

prop("C26", "Local lattice Green's function and hybridisation are consistent",
     "For every lattice (hybridisation function, Hilbert transform, or finite Hamiltonian with overlap and lead self-energy), local self-energy and chemical potential, the local Green's function equals the diagonal of the inverse of (z+mu)S - H - Hybrid - Sigma (or its single-site analogue) and the Weiss field and hybridisation satisfy Weiss = 1/G_loc + Sigma and Delta = z + mu - e - Weiss. For nanostructures this holds for any assignment of equivalent sites, including a single class, classes whose representatives are not the leading sites, and spin-resolved self-energies; integrating the local function gives the thermal filling of every site, summed over both spins.",
     ["inputs", "configurations"], "every lattice matrix, overlap, hybridisation, equivalence map, self-energy shape and frequency array",
     "No test touches the lattice classes.",
     ["edpyt/dmft.py", "edpyt/nano_dmft.py"],
     [("single-site lattices", "edpyt/dmft.py:Gfloc,Gfhybrid,Gfhilbert"), ("nanostructure lattice", "edpyt/nano_dmft.py:Gfloc")],
     ["Gfloc.__call__", "Gfloc.Weiss", "Gfloc.Delta", "Gfloc.free"])

prop("C27", "DMFT loop stops exactly when it should and stays causal",
     "Each call of the self-consistency map counts one iteration, signals convergence if and only if the norm of the change of the hybridisation is below the tolerance, signals failure exactly after the allowed number of unconverged iterations, and otherwise returns the new hybridisation - the first max_iter unconverged calls return, the next one signals failure -, having updated impurity and lattice from the given one. Entries of the input hybridisation with positive imaginary part are clamped to a negative infinitesimal before use, so that only causal functions are fitted, and the solve entry points end with one of the two signals (linear mixing, when its own iteration limit lies beyond the loop's).",
     ["histories", "inputs"], "every sequence of hybridisations, tolerance, iteration limit, mixing method",
     "No test touches the loop.",
     ["edpyt/dmft.py"],
     [("iteration control and causality clamp", "edpyt/dmft.py:DMFT.__call__"), ("steps", "edpyt/dmft.py:dmft_step,dmft_step_adjust,dmft_step_magnetic"),
      ("mixing", "edpyt/dmft.py:DMFT.solve")],
     ["DMFT.__call__", "DMFT.solve"])

prop("C28", "Distributed operation equals serial operation for any rank count",
     "For every admissible number of processes and every order in which they run, the distributed redistribution between up- and down-major layouts is the blockwise transpose and its inverse, and the distributed Hamiltonian product, Lanczos coefficients, eigenvectors, occupations and nanostructure lattice functions equal the serial ones, with every process holding its own contiguous part (or the full result where the result is global). Every process performs the same sequence of collective operations, and unsupported partitions are rejected with an error instead of a wrong result.",
     ["schedules", "configurations", "inputs"], "every process count dividing the space, vector contents, interleaving of the processes",
     "The MPI tests run on one process or are commented out.",
     ["edpyt/vector_transpose.py", "edpyt/matvec_product.py", "edpyt/lanczos.py", "edpyt/observs.py", "edpyt/nano_dmft.py"],
     [("redistribution", "edpyt/vector_transpose.py:collect_dw,collect_up"), ("distributed product", "edpyt/matvec_product.py:matvec_operator"),
      ("distributed recursion", "edpyt/lanczos.py:sl_step"), ("distributed occupations", "edpyt/observs.py:get_evecs_occupation")],
     ["collect_dw", "collect_up", "matvec_operator(comm)", "build_sl_tridiag(comm)", "get_evecs_occupation(comm)"])

prop("C29", "Distributional exact diagonalisation: sampling, fit and averages",
     "Sampled poles are sorted, lie within the sampling range and follow the given distribution for any generator; the impurity model fitted to a set of poles has exactly the same non-interacting Green's function, with positive squared couplings and bath levels between neighbouring poles. The solver returns zero self-energy and unchanged impurity occupation when the interaction is zero, occupations between zero and two, and the entropy is the thermodynamic entropy of the model minus that of its bath. Each returned quantity is the average over exactly the sampled models that keep their particle number (per impurity when there are several; weighted by their departure from the constraint in the development variant), the self-energy being the difference of the inverse non-interacting and interacting Green's functions, and the user's density and interaction are left alone. Smoothing a self-energy is linear, keeps what varies slower than the cutoff and is zero outside the data.",
     ["inputs"], "every density of states, pole set, number of poles, generator, interaction (scalar, matrix, exchange), temperature and number of impurities",
     "No stable test covers this part.",
     ["edpyt/dedlib.py", "edpyt/dedlib_dev.py", "edpyt/espace.py"],
     [("inverse-cdf sampling", "edpyt/dedlib.py:RandomSampler"), ("pole/zero fit", "edpyt/dedlib.py:Gfimp.fit"),
      ("solvers", "edpyt/dedlib.py:siam_solve,moam_solve; edpyt/dedlib_dev.py:ded_solve,ded_solve_multi"), ("entropy", "edpyt/dedlib.py:get_entropy")],
     ["RandomSampler", "Gf0", "Gfimp.fit", "siam_solve", "moam_solve", "ded_solve", "ded_solve_multi", "get_entropy", "smooth"])

prop("C30", "State display shows every eigenstate with its true occupation",
     "Printing an eigenspace lists every eigenstate once, in ascending energy, each as the superposition of all basis states of its sector with its amplitudes (three decimals) next to the correct occupation pattern, for spin-resolved and charge-only sectors alike. A basis state is drawn with an up arrow exactly at the up-occupied, a down arrow exactly at the down-occupied, and an o exactly at the empty sites. The spectrum display draws every level once above its total charge.",
     ["inputs"], "every eigenspace of either symmetry and every occupation pattern",
     "No test touches the display.",
     ["edpyt/eshow.py", "edpyt/lookup.py"],
     [("fock-state drawing", "edpyt/eshow.py:fock"), ("listing", "edpyt/eshow.py:eprint"), ("spectrum", "edpyt/eshow.py:pdisplay")],
     ["fock", "eprint", "pdisplay"])

prop("C31", "Orbital and spin-density drawings show the quantities they are given",
     "For every molecule, projection plane and selection of atoms, the drawings join exactly the bonded pairs of atoms with one line each, between their projected positions. An orbital is drawn with one circle per selected atom, centred at the atom, with radius scale times the squared amplitude, red where the amplitude is positive and blue where it is negative. A spin density is drawn with a black circle whose radius is the up-spin and a gray circle whose radius is the down-spin occupation of the atom's site in the given eigenvector, whatever the layout of that eigenvector. The given axes are used and returned, orbitals or selections of another size are rejected, and atoms and vectors are left unmodified.",
     ["inputs", "configurations"], "every molecule, plane, selection, orbital, sector and eigenvector",
     "No test touches the drawings (ase is not installed).",
     ["edpyt/cotools.py", "edpyt/observs.py"],
     [("drawings", "edpyt/cotools.py:draw_skeleton,draw_feynman_dyson_orbital,draw_spin_density"), ("occupations", "edpyt/observs.py:get_evecs_occupation")],
     ["draw_skeleton", "draw_feynman_dyson_orbital", "draw_spin_density"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
