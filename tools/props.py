"""Source of properties.jsonl (one place to edit; `python3 tools/props.py` rewrites it)."""
import json, os

P = []


def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier={"over": over, "text": qtext}, why_tests_cant=why, anchors=a))


prop(
    "C01", "Every hafnian algorithm returns the sum over perfect matchings",
    "For every symmetric matrix, the hafnian (and, with loops enabled, the loop hafnian with the given diagonal) "
    "returned by each public algorithm - Glynn, inclusion-exclusion, recursive, repeated-moment, sparse, banded, "
    "low-rank, and the pure-Python reference - equals the sum over all (single-pair) perfect matchings of the product of "
    "the matched entries, up to floating-point rounding. This holds for odd, even and empty matrices, for any pattern of "
    "row/column repetitions, for real, complex and integer matrices, for any structure (zero, diagonal, banded, sparse, "
    "low-rank) and any memory layout; the approximate estimator for non-negative matrices has that value as its expectation.",
    ["inputs", "configurations"],
    "all symmetric matrices x all repetition vectors x all algorithm/loop/dtype options",
    "The tests compare algorithms on a few random or all-ones matrices with known closed forms; agreement with the "
    "combinatorial definition must hold for every matrix, repetition pattern and algorithm choice, including the corner "
    "shapes where the implementations branch (no kept edges, odd leftover mode, zero rows, Fortran order).",
    ["thewalrus/_hafnian.py", "thewalrus/_low_rank_haf.py", "thewalrus/reference.py", "thewalrus/charpoly.py"],
    [("edge matching and finite-difference/inclusion-exclusion sum", "thewalrus/_hafnian.py: matched_reps, find_kept_edges, _calc_hafnian, _calc_loop_hafnian"),
     ("power-trace generating polynomial", "thewalrus/_hafnian.py: f, f_loop, f_loop_odd"),
     ("dispatch and corner cases", "thewalrus/_hafnian.py: hafnian, loop_hafnian, hafnian_repeated, hafnian_sparse, hafnian_banded"),
     ("low-rank generating function", "thewalrus/_low_rank_haf.py: low_rank_hafnian"),
     ("matching enumeration", "thewalrus/reference.py: pmp, spm, hafnian")],
    observe=["return values of the public functions, all methods against one independent memoised matching recursion"],
)

prop(
    "C02", "Batched Hermite tensors hold every reduced loop hafnian, and their gradients",
    "The renormalised and plain multidimensional Hermite tensors, the batched hafnian tensor and the interferometer tensor "
    "contain at every index, for every scalar or per-mode cutoff, exactly the loop hafnian (or permanent) of the matrix with "
    "rows and columns repeated according to that index, divided by the square root of the product of factorials when renormalised. "
    "The result does not depend on whether the inputs are integer, real or complex, nor on whether the tensor is returned "
    "shaped or flattened, and the documented tensor gradients equal the derivatives of the tensor.",
    ["inputs", "configurations"],
    "all symmetric matrices and vectors, all cutoffs (scalar, tuple, 1 and >1000), renorm/make_tensor/modified flags, dtypes",
    "Tests look at a handful of cutoffs and float inputs; a recurrence that walks an index lattice must be right at every "
    "multi-index, cutoff shape and dtype combination.",
    ["thewalrus/_hermite_multidimensional.py"],
    [("index-lattice recurrences", "thewalrus/_hermite_multidimensional.py: _hermite_multidimensional, _hermite_multidimensional_renorm, _interferometer_renorm"),
     ("gradient recurrences", "thewalrus/_hermite_multidimensional.py: grad_hermite_multidimensional and helpers"),
     ("matrix/vector preparation and check", "thewalrus/_hermite_multidimensional.py: hermite_multidimensional, hafnian_batched, interferometer")],
    state=[("square-root table", "precomputed sqrt(n) used to renormalise; bounds the largest valid cutoff", "thewalrus/_hermite_multidimensional.py: SQRT")],
    observe=["every entry of the returned tensors"],
)

prop(
    "C03", "Permanents, Bristolians and Fock-input detection probabilities are exact",
    "Every permanent algorithm, the permanent with repeated rows and columns, and the Bristolian and unitary Bristolian equal their "
    "combinatorial definitions for every matrix. Photon-number-resolved and threshold detection probabilities of Fock states sent "
    "through any passive (unitary or lossy) linear transformation equal those of an independent Fock-space calculation: they lie in "
    "[0,1], sum to one over all outcomes - including the vacuum input - and the threshold pattern is the coarse-graining of the "
    "number-resolved one.",
    ["inputs", "configurations"],
    "all matrices, dtypes and sizes; all Fock inputs (with collisions and vacuum), unitary and sub-unitary transfer matrices",
    "Tests cover small random matrices and single inputs; normalisation and definitional equality quantify over all inputs and outcomes.",
    ["thewalrus/_permanent.py"],
    [("Gray-code Ryser and BBFG loops", "thewalrus/_permanent.py: perm_ryser, perm_bbfg"),
     ("repetition through bipartite hafnian", "thewalrus/_permanent.py: permanent_repeated"),
     ("inclusion-exclusion over click subsets", "thewalrus/_permanent.py: brs, ubrs"),
     ("factorial normalisation and mode selection", "thewalrus/_permanent.py: fock_prob, fock_threshold_prob")],
    observe=["return values"],
)

prop(
    "C04", "Torontonians and threshold-detector probabilities are exact and normalised",
    "The torontonian and loop torontonian, in every implementation offered (recursive or not, compiled or not), equal their definition as "
    "the alternating sum over subsets of modes, for every valid matrix and displacement. For every Gaussian state (mixed or pure, "
    "displaced or not, any hbar) the threshold detection probabilities of all click patterns are non-negative, sum to one, equal the "
    "inclusion-exclusion of vacuum probabilities of reduced states, and are consistent under marginalisation and mode permutation.",
    ["inputs", "configurations"],
    "all Gaussian states up to the sizes run, all click patterns, hbar values, recursive/non-recursive options",
    "The tests fix a few states and patterns; the identities quantify over states, patterns and implementations, and the recursive "
    "algorithm branches with every pattern size.",
    ["thewalrus/_torontonian.py"],
    [("subset sums", "thewalrus/_torontonian.py: tor, ltor, numba_tor, numba_ltor"),
     ("Cholesky-update recursion", "thewalrus/_torontonian.py: rec_torontonian, rec_ltorontonian, recursiveTor, quad_cholesky"),
     ("state to matrix conversion", "thewalrus/_torontonian.py: threshold_detection_prob")],
    observe=["return values against determinants of reduced Husimi matrices"],
)

prop(
    "C05", "Montrealers, characteristic polynomials and power traces match their definitions",
    "The montrealer and loop montrealer equal their definition as sums over single-cycle perfect matchings for every matrix, and "
    "the cumulants of photon numbers built from them agree with the cumulants computed from moments. The characteristic-polynomial "
    "coefficients satisfy the characteristic equation of every square matrix, and the power traces equal the traces of the "
    "matrix powers for every requested order, also above the matrix size.",
    ["inputs"],
    "all square matrices of any size (including 0 and 1), any order; all Gaussian states and mode multi-indices for cumulants",
    "Existing tests sample a few sizes and orders; the code branches on size versus order and uses in-place Hessenberg reduction "
    "whose pivots depend on the entries (zero columns, defective matrices).",
    ["thewalrus/_montrealer.py", "thewalrus/charpoly.py", "thewalrus/reference.py"],
    [("subset power-trace sum", "thewalrus/_montrealer.py: mtl, lmtl"),
     ("Householder reduction and La Budde recursion", "thewalrus/charpoly.py: reduce_matrix_to_hessenberg, _charpoly"),
     ("Cayley-Hamilton continuation", "thewalrus/charpoly.py: powertrace")],
    observe=["return values"],
)

prop(
    "C06", "Batched loop hafnians equal the individually computed loop hafnians",
    "For every symmetric matrix, diagonal, vector of fixed repetitions and cutoff, the batched loop hafnian returns an array whose length is the cutoff plus one and whose entry k "
    "is the loop hafnian with the last mode repeated k times; the batched version over several displacement vectors agrees with the unbatched one row by row. "
    "This holds for paired and unpaired fixed patterns, empty patterns, zero repetitions, both summation variants, and cutoffs zero, odd and even.",
    ["inputs", "configurations", "schedules"],
    "all matrices x fixed repetition vectors x cutoffs x summation variants x thread counts",
    "Tests check a few random patterns; the even and odd kernels differ in offsets, signs and array lengths that depend on parity and cutoff.",
    ["thewalrus/loop_hafnian_batch.py", "thewalrus/loop_hafnian_batch_gamma.py"],
    [("even/odd batch kernels", "thewalrus/loop_hafnian_batch.py: _calc_loop_hafnian_batch_even, _calc_loop_hafnian_batch_odd"),
     ("batch edges", "thewalrus/loop_hafnian_batch.py: add_batch_edges_even, add_batch_edges_odd"),
     ("gamma batch kernels", "thewalrus/loop_hafnian_batch_gamma.py: _calc_loop_hafnian_batch_gamma_even, _calc_loop_hafnian_batch_gamma_odd")],
    observe=["every entry of the returned arrays"],
)

prop(
    "C07", "Fock representations of Gaussian states are physical and mutually consistent",
    "For every Gaussian state, hbar and cutoff, the probabilities, density-matrix elements, density matrices, state-vector "
    "amplitudes, state vectors and post-selected tensors returned are the same quantum state: they agree elementwise with each other and with an "
    "independent operator-level Fock-space calculation. Density matrices are Hermitian and positive, probabilities are non-negative "
    "and sum to at most one (to one as the cutoff grows), and rescaling hbar together with the state changes nothing.",
    ["inputs", "configurations"],
    "all pure and mixed Gaussian states (displaced or not), cutoffs, post-selection dictionaries, hbar values",
    "Tests pin named states (two-mode squeezed, coherent, thermal) at a few cutoffs; the conventions (ordering, conjugation, hbar, "
    "factorials) must agree for every state, outcome and post-selection pattern.",
    ["thewalrus/quantum/fock_tensors.py", "thewalrus/quantum/conversions.py"],
    [("state to adjacency conversion", "thewalrus/quantum/conversions.py: Qmat, Amat, Xmat"),
     ("element via loop hafnian", "thewalrus/quantum/fock_tensors.py: density_matrix_element, pure_state_amplitude"),
     ("tensor via Hermite recurrence", "thewalrus/quantum/fock_tensors.py: density_matrix, state_vector, probabilities"),
     ("post selection", "thewalrus/quantum/fock_tensors.py: density_matrix, state_vector")],
    observe=["returned arrays; independent oracle exponentiates quadratic Hamiltonians in a truncated Fock space"],
)

prop(
    "C08", "Photon-number moments, cumulants and click statistics match the distribution",
    "For every Gaussian state and hbar, the reported photon-number means, variances, covariances, moments, cumulants, s-ordered and normally ordered "
    "expectations, and the mean and variance of the number of clicks equal the corresponding moments of the state's full joint photon-number (or click) distribution. "
    "They are independent of the units chosen through hbar, consistent under permutation and marginalisation of modes, and "
    "covariance matrices of photon numbers are symmetric and positive semidefinite.",
    ["inputs", "configurations"],
    "all Gaussian states, hbar values, mode subsets in any order and powers (including zero powers and repeated modes)",
    "Tests use closed forms for special states; the formulas involve conjugations and mode bookkeeping that only generic, displaced, "
    "multi-mode, correlated states distinguish.",
    ["thewalrus/quantum/means_and_variances.py", "thewalrus/quantum/photon_number_distributions.py"],
    [("Wick-type formulas in Husimi covariance", "thewalrus/quantum/means_and_variances.py: photon_number_mean, photon_number_covar"),
     ("normal-ordered expectations", "thewalrus/quantum/means_and_variances.py: normal_ordered_expectation, s_ordered_expectation, photon_number_moment"),
     ("set partitions", "thewalrus/quantum/means_and_variances.py: photon_number_cumulant"),
     ("click statistics", "thewalrus/quantum/means_and_variances.py: mean_clicks, variance_clicks")],
    observe=["return values against sums over the joint distribution"],
)

prop(
    "C09", "Loss, noise and marginalisation of photon distributions conserve probability",
    "Applying loss to a photon-number distribution is a column-stochastic binomial thinning for every transmission in [0,1] and any number of modes and "
    "photons: total probability is conserved, mean photon numbers scale by the transmission, losses compose, and the result is that of the lossy Gaussian state; "
    "adding noise convolves with the noise distribution. Pure- and mixed-squeezed photon distributions, their "
    "total-variation bounds and all n-body marginals of a joint distribution are likewise those of the definition, for every choice of modes.",
    ["inputs", "configurations"],
    "all distributions, transmissions including endpoints, numbers of modes, cutoffs and photon numbers; all subsets of modes",
    "Tests use few modes and moderate transmissions; conservation must hold at extreme transmissions, many modes, large cutoffs and any axis order.",
    ["thewalrus/quantum/fock_tensors.py", "thewalrus/quantum/photon_number_distributions.py", "thewalrus/quantum/means_and_variances.py"],
    [("binomial loss matrix", "thewalrus/quantum/fock_tensors.py: loss_mat, update_probabilities_with_loss"),
     ("noise convolution", "thewalrus/quantum/fock_tensors.py: update_probabilities_with_noise"),
     ("squeezed distributions", "thewalrus/quantum/photon_number_distributions.py"),
     ("marginals", "thewalrus/quantum/fock_tensors.py: find_classical_subsystem, tvd_cutoff_bounds; thewalrus/quantum/means_and_variances.py: n_body_marginals")],
    observe=["returned arrays"],
)

prop(
    "C10", "Matrix decompositions reconstruct their input with factors of the claimed type",
    "For every valid input, the Williamson, Bloch-Messiah, (pre-)Iwasawa and Autonne-Takagi decompositions return factors whose product reproduces the "
    "input and whose factors have the claimed structure: symplectic, orthogonal, unitary, diagonal, positive, ordered as documented. "
    "Symplectic eigenvalues agree with the Williamson form and are invariant under symplectic congruence; degenerate, diagonal, rank-deficient, "
    "and complex inputs are included.",
    ["inputs", "configurations"],
    "all positive-definite covariance matrices, symplectic matrices and complex symmetric matrices, incl. degenerate spectra",
    "Tests decompose random generic matrices, for which the degenerate and structured branches never run.",
    ["thewalrus/decompositions.py"],
    [("Schur-form Williamson", "thewalrus/decompositions.py: williamson, symplectic_eigenvals"),
     ("Bloch-Messiah through polar/eigen decomposition", "thewalrus/decompositions.py: blochmessiah"),
     ("Takagi special cases", "thewalrus/decompositions.py: takagi"),
     ("Iwasawa factors", "thewalrus/decompositions.py: pre_iwasawa, iwasawa")],
    observe=["returned factors"],
)

prop(
    "C11", "Symplectic gates, channels, embeddings and reorderings act as the physics says",
    "Every gate constructor returns a symplectic (passive gates: also orthogonal) matrix implementing the documented transformation, gates compose additively where they are "
    "one-parameter groups, and embedding into more modes or reordering of quadratures acts as the identity on the other modes and is inverted by "
    "its counterpart. Loss, noise and passive-transformation channels map physical Gaussian states to physical ones with the documented action on "
    "mean photon number, compose, and commute with taking reduced states of other modes in whatever order modes are listed.",
    ["inputs", "configurations"],
    "all gate parameters, mode subsets in any order, states, hbar values, sequences of gates and channels",
    "Tests check individual gates on one or two modes; composition, embedding and ordering laws quantify over mode lists, state sizes and histories of operations.",
    ["thewalrus/symplectic.py", "thewalrus/quantum/conversions.py"],
    [("gate matrices", "thewalrus/symplectic.py: squeezing, two_mode_squeezing, interferometer, rotation, beam_splitter, mean_photon"),
     ("embedding", "thewalrus/symplectic.py: expand, expand_vector, expand_passive"),
     ("channels", "thewalrus/symplectic.py: loss, passive_transformation, is_symplectic"),
     ("ordering", "thewalrus/symplectic.py: xxpp_to_xpxp, xpxp_to_xxpp, reduced_state"),
     ("reduced states", "thewalrus/quantum/conversions.py: reduced_gaussian")],
    observe=["returned matrices; histories of operations on an evolving state, checked by physicality and independent complex-amplitude tracking"],
)

prop(
    "C12", "Gaussian-state conversions, validity checks, fidelities and entanglement are consistent",
    "Conversions between covariance, Husimi, adjacency, complex-amplitude and quadrature descriptions are mutually inverse for every Gaussian state and hbar, and the "
    "validity, purity and classicality checks classify every state the way the defining inequality does. Fidelity is real, in [0,1], symmetric, "
    "equal to one only for equal states, invariant under common Gaussian unitaries, and equal to the state overlap if one state is pure. "
    "Entanglement entropy and logarithmic negativity are non-negative, vanish on product states, are invariant under "
    "local unitaries, equal for the two halves of a pure state, and independent of hbar.",
    ["inputs", "configurations"],
    "all Gaussian states (pure, mixed, displaced, strongly squeezed), mode splits, hbar values",
    "Tests use special two-mode states; the invariances and inverse laws quantify over all states, splits and units.",
    ["thewalrus/quantum/conversions.py", "thewalrus/quantum/gaussian_checks.py", "thewalrus/quantum/entanglement.py"],
    [("ordering and normalisation", "thewalrus/quantum/conversions.py: Qmat, Covmat, Amat, Means, Beta, complex_to_real_displacements, real_to_complex_displacements"),
     ("validity checks", "thewalrus/quantum/gaussian_checks.py: is_valid_cov, is_pure_cov, is_classical_cov"),
     ("fidelity", "thewalrus/quantum/gaussian_checks.py: fidelity"),
     ("entanglement", "thewalrus/quantum/entanglement.py: vonneumann_entropy, entanglement_entropy, log_negativity")],
    observe=["return values"],
)

prop(
    "C13", "Fock tensors of Gaussian gates are the gate's matrix elements, with exact gradients",
    "The Fock-basis tensors of displacement, squeezing, beam-splitter, Mach-Zehnder, two-mode-squeezing gates, interferometers and general Gaussian unitaries equal the matrix elements of the "
    "corresponding unitary for every parameter, cutoff and index. Within the cutoff they satisfy the unitary's exact relations (composition, adjoint, energy or parity "
    "conservation), applying them to a Gaussian state's vector gives the transformed state's vector, and the returned gradient tensors are the derivatives of the gate with respect to its parameters.",
    ["inputs", "configurations"],
    "all gate parameters, symplectic matrices, displacements, cutoffs (including 1 and 2), index layouts",
    "Tests check small cutoffs and a few parameters; recurrences have boundary rows and sign conventions that matter at every index.",
    ["thewalrus/fock_gradients.py", "thewalrus/quantum/fock_tensors.py", "thewalrus/_hermite_multidimensional.py"],
    [("gate recurrences", "thewalrus/fock_gradients.py: displacement, squeezing, beamsplitter, two_mode_squeezing, mzgate"),
     ("gradient recurrences", "thewalrus/fock_gradients.py: grad_*"),
     ("Choi expansion", "thewalrus/quantum/fock_tensors.py: fock_tensor; thewalrus/symplectic.py: choi_expand")],
    observe=["returned tensors against matrix exponentials of truncated generators and finite differences"],
)

prop(
    "C14", "Graph encodings give valid states with the requested mean photon number",
    "For every symmetric matrix and positive mean photon number, scaling an adjacency matrix yields a matrix that encodes a physical Gaussian state "
    "with exactly that mean total number of photons (or clicks per the documented target), independent of the overall scale of the matrix, and conversion "
    "to and from the Husimi matrix is inverse. The classical point-process samplers' rescaling reaches the requested mean and returns eigenvalues and "
    "eigenvectors that rebuild a positive multiple of the matrix.",
    ["inputs", "configurations"],
    "all real and complex symmetric (also singular, negative) matrices, mean photon numbers, hbar values",
    "Tests check a few random graphs and means; root-finding, singular-value conventions and scale covariance must hold for every matrix.",
    ["thewalrus/quantum/adjacency_matrices.py", "thewalrus/csamples.py"],
    [("root finding on mean photon number", "thewalrus/quantum/adjacency_matrices.py: adj_scaling, find_scaling_adjacency_matrix"),
     ("adjacency to Husimi", "thewalrus/quantum/adjacency_matrices.py: adj_to_qmat, adj_scaling_torontonian"),
     ("classical rescale", "thewalrus/csamples.py: rescale_adjacency_matrix, rescale_adjacency_matrix_thermal")],
    observe=["return values"],
)

prop(
    "C15", "Samplers draw from the distribution they claim and honour their limits",
    "Each photon-number or click sampler, for every Gaussian state and hbar, draws independent samples from the state's exact Fock or threshold distribution "
    "(truncated and conditioned only as documented), and classical samplers follow their stated law. Every sample has the right shape and type, "
    "never exceeds the documented cutoff or photon limits, and the sequence is a function of the seed alone, whether drawn sequentially or in parallel workers.",
    ["inputs", "histories", "schedules", "configurations"],
    "all Gaussian states, hbar values, cutoffs, max-photon limits, sample counts, seeds and parallel settings",
    "Tests compare a few empirical frequencies for symmetric hbar=2 states; distributional equality must hold for every state and unit, and the limits for every drawn history.",
    ["thewalrus/samples.py", "thewalrus/csamples.py"],
    [("chain-rule sampling", "thewalrus/samples.py: generate_hafnian_sample, generate_torontonian_sample, hafnian_sample_state, torontonian_sample_state"),
     ("graph samplers", "thewalrus/samples.py: hafnian_sample_graph, torontonian_sample_graph"),
     ("classical-state samplers", "thewalrus/samples.py: hafnian_sample_classical_state, torontonian_sample_classical_state"),
     ("squeezed-state direct samplers", "thewalrus/samples.py: photon_number_sampler; thewalrus/csamples.py: generate_thermal_samples")],
    observe=["sequences of samples: exact-distribution goodness of fit at fixed false-alarm rate, per-sample invariants, seed replay"],
)

prop(
    "C16", "Random generators always produce members of the claimed class",
    "Every random matrix generator returns, for every dimension and option, a matrix of the class it documents: Haar unitaries and "
    "orthogonals are unitary/orthogonal with uniformly distributed phases, symplectics are symplectic (passive ones orthogonal), covariances are valid and pure or mixed as requested "
    "in the units of hbar, block and banded variants have exactly the requested block or band structure. The result depends on the random state only, and repeated draws differ.",
    ["inputs", "configurations", "histories"],
    "all dimensions, options, hbar values, seeds",
    "Tests draw one or two matrices per option; class membership and uniformity are statements over all draws and dimensions.",
    ["thewalrus/random.py"],
    [("Haar by QR with phase correction", "thewalrus/random.py: randnc, random_interferometer"),
     ("banded and block unitaries", "thewalrus/random.py: random_banded_interferometer, random_block_interferometer"),
     ("symplectic and covariance", "thewalrus/random.py: random_symplectic, random_covariance")],
    observe=["drawn matrices; first and second moments of entries over many draws"],
)

prop(
    "C17", "Grouped-click estimates and distinguishable-squeezer statistics are exact",
    "For distinguishable squeezed light the mean photon numbers, the photon-number covariance and the law of the drawn samples are those of independent squeezed inputs, each sent alone "
    "through the (lossy, possibly rectangular) interferometer, with the detected photons added. Grouped click distributions built from phase-space samples are normalised, have the exact "
    "distribution of grouped clicks as their expectation, and report non-negative finite sampling errors of the right size for every number of samples and groups; they depend on the seed alone.",
    ["inputs", "configurations"],
    "all squeezing vectors, thermal/squeezed inputs, unitaries/transfer matrices, groupings and sample counts",
    "Tests use fixed small networks; normalisation and decomposition identities quantify over networks, patterns, and group sizes.",
    ["thewalrus/quantum/distinguishable_squeezers.py", "thewalrus/grouped_click_probabilities.py"],
    [("independent inputs added", "thewalrus/quantum/distinguishable_squeezers.py: sample, number_means, number_cov"),
     ("phase-space Fourier estimator", "thewalrus/grouped_click_probabilities.py: grouped_click_probabilities, grouped_click_probabilities_squeezed")],
    observe=["return values"],
)

prop(
    "C18", "Compiled kernels are memory safe and independent of threads and schedule",
    "No call of the public API on valid inputs reads or writes outside the arrays it works on or uses uninitialised memory. The value returned is the same (to rounding) whether the kernels run compiled or interpreted, with one "
    "or many worker threads, repeatedly or concurrently from several threads of the caller.",
    ["inputs", "schedules", "configurations"],
    "all valid inputs incl. empty and size-one arrays, thread counts, interleavings of worker threads and of concurrent callers, compiled/interpreted/bounds-checked builds",
    "The test suite runs compiled code without bounds checking and with fixed threads, so an out-of-bounds access, a missing initialisation or a racy reduction "
    "returns a plausible value; schedules are not controlled.",
    ["thewalrus/_hafnian.py", "thewalrus/_permanent.py", "thewalrus/_torontonian.py", "thewalrus/charpoly.py", "thewalrus/_hermite_multidimensional.py",
     "thewalrus/fock_gradients.py", "thewalrus/loop_hafnian_batch.py", "thewalrus/loop_hafnian_batch_gamma.py", "thewalrus/_montrealer.py"],
    [("numba kernels without bounds checks", "all @jit(nopython=True) functions"),
     ("parallel reductions over prange", "_calc_hafnian, _calc_loop_hafnian, batch kernels, brs, ubrs, numba_ltor"),
     ("uninitialised allocation then fill", "np.empty users in the kernels")],
    observe=["NUMBA_BOUNDSCHECK build, NUMBA_DISABLE_JIT build with poisoned np.empty and index monitor, thread-count sweep, concurrent callers"],
)

prop(
    "C19", "API calls leave their inputs and each other's results untouched",
    "No public function modifies the arrays, lists or dictionaries passed to it, and no function's result depends on which other functions were called before "
    "or how often: apart from consuming the random stream where documented, results are a function of the arguments alone. "
    "Results returned earlier are never changed by later calls, and memory layout, read-only flags or array views of equal values make no difference to the values returned.",
    ["inputs", "histories"],
    "all public functions and all call histories",
    "Tests call each function with fresh arrays and do not look at the arguments afterwards; the claim is about every sequence of calls.",
    ["thewalrus/_hafnian.py", "thewalrus/charpoly.py", "thewalrus/quantum/conversions.py", "thewalrus/symplectic.py", "thewalrus/decompositions.py", "thewalrus/samples.py", "thewalrus/reference.py"],
    [("copies at the entry points", "public functions that call in-place kernels"),
     ("module-level caches", "thewalrus/reference.py: memoized; hafnian_sparse lru_cache")],
    state=[("memoisation caches", "results kept between calls", "thewalrus/reference.py: memoized")],
    observe=["argument snapshots before/after each call, digests of earlier results, replay of calls in shuffled histories"],
)

prop(
    "C20", "Ill-formed inputs are rejected with an error instead of a number",
    "Calls whose arguments violate the documented preconditions - non-square, non-symmetric or NaN matrices, wrong lengths of repetitions, means, loops, photon patterns or cutoffs, out-of-range modes, unphysical or non-classical covariance matrices, "
    "mixed states where a pure one is required, non-symplectic matrices, odd dimensions, lists instead of arrays, unknown methods, impossible transmissions, means, bipartitions and sampling limits - raise an exception (ValueError, or TypeError for wrong types, where the function checks explicitly). They never "
    "return a value, for every position of the defect in the argument and every size of input; the validity predicates (is_valid_cov, is_pure_cov, is_classical_cov, is_symplectic) answer False instead. Arguments within the documented tolerances are accepted.",
    ["inputs"],
    "all documented preconditions x positions and magnitudes of the violation x options that lead to the same check",
    "Tests trigger each check once with one malformed argument; here the defect may sit anywhere in the argument and be combined with any option.",
    ["thewalrus/_hafnian.py", "thewalrus/_permanent.py", "thewalrus/_torontonian.py", "thewalrus/symplectic.py", "thewalrus/decompositions.py", "thewalrus/samples.py", "thewalrus/quantum/fock_tensors.py"],
    [("argument validation", "input_validation and the explicit raise statements of the public functions")],
    observe=["exception class or returned value"],
)

if __name__ == "__main__":
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    print(len(P))
