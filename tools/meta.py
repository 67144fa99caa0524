"""Regenerates properties.jsonl and MANIFEST.json (run: python3 tools/meta.py).  A property is claimed when
mc/checks/<id>.py exists."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note))


T = "thewalrus/"
Q = "thewalrus/quantum/"

prop("C01", "Every hafnian algorithm returns the (loop) hafnian of its matrix",
     "For every symmetric matrix the hafnian, loop hafnian, sparse, banded and low-rank routines, with every method option, return the sum over perfect matchings (over single-pair matchings when loops are counted) of the products of matched entries. This holds for every size including empty and odd ones, every supported numeric type and memory layout, with and without precision-improving options.",
     ["inputs", "configurations"], "all symmetric matrices x method/loop/rtol options x dtypes x layouts",
     "Tests sample random matrices and a few closed forms; agreement must hold for every matrix, size, sparsity pattern and option combination.",
     [T + "_hafnian.py", T + "_low_rank_haf.py", T + "reference.py"],
     [("power-trace / recursive / sparse / banded algorithms", T + "_hafnian.py"), ("low rank expansion", T + "_low_rank_haf.py")],
     "explicit enumeration of all small graphs and structured matrix alphabets against a subset-state dynamic program",
     "Exhaustive over all labelled graphs up to 5 vertices (classes up to 6/7), a deterministic alphabet of matrices up to size 12-20, and all options; trusts the reference dynamic program; larger sizes are not explored.")
prop("C02", "Repeated-row hafnians equal hafnians of the expanded matrices",
     "For every symmetric matrix, loop vector and multiplicity vector, the routines that take multiplicities return the (loop) hafnian of the matrix with rows and columns repeated accordingly, for every choice of algorithm option, and the reduction helper builds exactly that expanded matrix. Zero multiplicities remove the mode, an odd total without loops gives zero and no repetitions gives one.",
     ["inputs", "configurations"], "all matrices x loop vectors x multiplicity vectors x options",
     "Tests use a handful of multiplicity vectors; parity, zero and pairing corner cases are combinatorially many.",
     [T + "_hafnian.py"], [("matched_reps, loop_hafnian, hafnian_repeated", T + "_hafnian.py")],
     "explicit-state enumeration of the multiplicity lattice against its defining recursion",
     "Every multiplicity vector in the stated boxes for 1 to 6 modes, compared with the lattice recursion; matrices from a fixed alphabet.")
prop("C03", "Hermite tensors satisfy their defining recurrence for every cutoff",
     "The multidimensional Hermite polynomials (standard, modified, renormalised, single-index) and the batched hafnians and interferometer tensors returned for a matrix, vector and cutoff have as every entry the value given by the generating function, in the documented tensor shape. Renormalisation divides by the square roots of factorials and per-mode cutoffs give the corresponding sub-tensor.",
     ["inputs", "configurations"], "all matrices, vectors, cutoffs, flags and dtypes",
     "Tests compare a few random matrices at one or two cutoffs; every index of every tensor and every flag combination must agree.",
     [T + "_hermite_multidimensional.py"], [("recursive tensor filling", T + "_hermite_multidimensional.py")],
     "explicit-state enumeration of the index lattice of the recurrence",
     "All indices of all tensors for 1 to 4 dimensions and cutoffs up to 12 (1100 in one dimension), all flags; matrices from a fixed alphabet.")
prop("C04", "Gradients equal the exact derivatives of the functions they belong to",
     "The gradients returned for the Hermite tensors and for the Fock-basis gates (displacement, squeezing, two-mode squeezing, beam splitter, Mach-Zehnder) equal the exact partial derivatives of the corresponding tensors with respect to every parameter, for every index below the cutoff and every parameter value.",
     ["inputs", "configurations"], "all parameters, cutoffs, matrices, flags",
     "Tests compare a finite difference at one or two parameter points; sign, phase and index errors hide at special values.",
     [T + "_hermite_multidimensional.py", T + "fock_gradients.py"],
     [("grad_hermite_multidimensional", T + "_hermite_multidimensional.py"), ("grad_* functions", T + "fock_gradients.py")],
     "explicit-state enumeration of tensor indices against exact derivative recurrences",
     "Every tensor index for a grid of parameters and cutoffs, against derivatives obtained from operator identities in a larger space; agreement to 1e-7.")
prop("C05", "Batched loop hafnians equal the individual loop hafnians",
     "The batch routines return, for every matrix, displacement vector (or stack of vectors), fixed photon pattern and cutoff, exactly the vector of loop hafnians in which the last mode has 0, 1, ..., cutoff repetitions, for either internal summation formula.",
     ["inputs", "configurations"], "all matrices, displacements, fixed patterns, cutoffs, glynn on/off",
     "Tests compare random cases with a few patterns; parities of the fixed pattern, the cutoff and the core modes select different code paths.",
     [T + "loop_hafnian_batch.py", T + "loop_hafnian_batch_gamma.py"],
     [("odd/even batched finite-difference sums", T + "loop_hafnian_batch.py"), ("stacked version", T + "loop_hafnian_batch_gamma.py")],
     "explicit-state enumeration of the multiplicity lattice",
     "Every fixed pattern in a box and every cutoff, 0 to 6 fixed modes; matrices from a fixed alphabet.")
prop("C06", "Permanents and Bristolians equal their defining sums",
     "The permanent by every method equals the sum over permutations, the repeated permanent equals the permanent of the expanded matrix, and the Bristolian and unitary Bristolian equal their defining subset sums, for every matrix shape including empty ones.",
     ["inputs", "configurations"], "all matrices, multiplicities, methods, dtypes",
     "Tests compare random matrices of a few sizes; zero patterns, repeated rows and empty inputs are not covered.",
     [T + "_permanent.py"], [("perm, permanent_repeated, brs, ubrs", T + "_permanent.py")],
     "explicit-state dynamic program over column subsets",
     "All 0/1 matrices up to 4x4 and an alphabet up to size 9, all methods and dtypes.")
prop("C07", "Fock states through linear optics give the exact outcome probabilities",
     "The probability of every photon-number pattern, and of every threshold click pattern through any (lossy) transfer matrix, equals the one obtained by evolving the input Fock state photon by photon; the probabilities of all outcomes add up to one.",
     ["inputs"], "all input patterns, output patterns and transfer matrices",
     "Tests compare a few random interferometers; the normalisation over the whole outcome space is not checked.",
     [T + "_permanent.py"], [("fock_prob, fock_threshold_prob", T + "_permanent.py")],
     "explicit-state evolution of the occupation lattice, every outcome compared",
     "All patterns up to 6 photons in 1 to 4 modes; transfer matrices from a fixed alphabet.")
prop("C08", "Torontonians and threshold probabilities equal their inclusion-exclusion sums",
     "The (loop) torontonian of every valid matrix, computed recursively or directly, equals the signed sum over subsets of modes of inverse root determinants with displacement exponentials. The threshold detection probability of every click pattern of every Gaussian state, in every unit of hbar, equals the Gaussian probability of that pattern, and the patterns of a state add up to one.",
     ["inputs", "configurations"], "all states, displacements, click patterns, hbar, algorithms",
     "Tests compare random states with one hbar and a few patterns; normalisation and agreement of all algorithms must hold for every state.",
     [T + "_torontonian.py"], [("tor, ltor, recursive and direct sums, threshold_detection_prob", T + "_torontonian.py")],
     "explicit enumeration of all subsets and click patterns",
     "All click patterns of an alphabet of 1 to 5 mode states in 4 hbar conventions and torontonians up to 6 modes against full subset sums.")
prop("C09", "Montrealers count exactly the single-cycle matchings",
     "The montrealer of a matrix equals the sum over perfect matchings that join all modes in a single cycle, the loop montrealer adds the single open paths ended by loops, the symbolic reference agrees, and for a Gaussian state they give the joint photon-number cumulant of all modes.",
     ["inputs"], "all matrices and loop vectors",
     "Tests compare random covariance matrices only; general matrices and loop vectors are not covered.",
     [T + "_montrealer.py", T + "reference.py"], [("montrealer, lmontrealer", T + "_montrealer.py"), ("rpmp, rspm, mtl", T + "reference.py")],
     "explicit-state dynamic program over visited modes",
     "An alphabet of matrices up to 7 modes (14x14) and 5 loop vectors each, against a Hamiltonian cycle/path dynamic program.")
prop("C10", "Characteristic polynomials and power traces are exact and do not disturb inputs",
     "The characteristic polynomial and power-trace routines return, for every square matrix and number of powers, the coefficients of det(x - A) and the traces of the powers of A, and leave the caller's matrix unchanged.",
     ["inputs"], "all square matrices, orders, dtypes",
     "Tests compare random matrices; sparse, defective and tiny matrices take other paths in the Hessenberg reduction.",
     [T + "charpoly.py"], [("Hessenberg reduction and La Budde recursion", T + "charpoly.py")],
     "exhaustive enumeration of small integer matrices against exact integer arithmetic",
     "All matrices with entries in small sets up to 3x3 and an alphabet up to 10x10 against Faddeev-LeVerrier in exact integers.")
prop("C11", "Fock amplitudes, density matrices and probabilities describe the Gaussian state",
     "For every Gaussian state, amplitude, state vector, density matrix (element) and probability routines return the Fock-basis representation of that same state, whatever the unit of hbar, cutoff, post-selection and normalisation option, and agree with each other entry by entry.",
     ["inputs", "configurations"], "all Gaussian states x hbar x cutoffs x post-selections x flags",
     "Tests compare special states at cutoffs of a few photons; consistency across every entry, post-selection and hbar is universal.",
     [Q + "fock_tensors.py"], [("pure_state_amplitude, state_vector, density_matrix(_element), probabilities", Q + "fock_tensors.py")],
     "explicit-state enumeration of the Fock index lattice",
     "Every index below the cutoff for an alphabet of 1 to 3 mode states, all post-selection maps, 4 hbar values; reference lattice validated against Fock-space gate simulation.")
prop("C12", "Gate programs act identically in phase space and in Fock space",
     "Any sequence of displacement, squeezing, rotation, beam-splitter and two-mode squeezing gates and losses, applied through the symplectic representation and converted to the Fock basis, gives the same state as applying the Fock-space operators in sequence. The Fock tensor of a Gaussian gate equals that operator, in either index order.",
     ["programs", "inputs"], "all gate sequences, parameters, modes and cutoffs",
     "Tests check single gates; composition, mode addressing and phase conventions matter over all programs.",
     [T + "symplectic.py", T + "fock_gradients.py", Q + "fock_tensors.py"],
     [("symplectic gates, expand, loss", T + "symplectic.py"), ("Fock gates", T + "fock_gradients.py"), ("fock_tensor", Q + "fock_tensors.py")],
     "breadth-first exploration of gate programs, model replayed against the implementation",
     "All programs up to depth 2-3 over a gate alphabet for 1 and 2 modes, against a truncated Fock-space simulation.")
prop("C13", "Loss and noise updates transform probabilities as physical channels",
     "Loss matrices are the binomial photon-loss channel, updating a probability tensor with loss or independent noise equals the exact channel or convolution applied to every mode, losses compose multiplicatively and totals are preserved up to the cutoff.",
     ["inputs", "histories"], "all probability tensors, transmissions, noise laws and sequences of updates",
     "Tests use one or two tensors and uniform transmission; all modes, shapes and orders of updates must agree.",
     [Q + "fock_tensors.py"], [("loss_mat, update_probabilities_with_loss/noise", Q + "fock_tensors.py")],
     "exhaustive enumeration of basis tensors and channel sequences (linear maps decided on a basis)",
     "All basis tensors for 1 to 3 modes, all transmission tuples from a grid, and all sequences of two updates.")
prop("C14", "Photon-number and click statistics equal the moments of the state",
     "Means, covariances, moments, ordered expectations and cumulants of photon numbers and of clicks equal the corresponding moments of the Gaussian state for every list of modes (with repetitions and in any order), every power and every unit of hbar.",
     ["inputs", "configurations"], "all states, mode lists, powers, orderings and hbar",
     "Tests use special states and few multi-indices; repeated modes, zero powers and mode order are combinatorially many.",
     [Q + "means_and_variances.py"], [("Wick expansions", Q + "means_and_variances.py")],
     "explicit-state enumeration of Wick multi-indices and set partitions",
     "All multi-indices and mode lists up to stated totals for an alphabet of 1 to 5 mode states in 4 hbar conventions.")
prop("C15", "Reductions and marginals commute with measurement of the kept modes",
     "Reduced states keep exactly the requested modes in the requested order, the marginal distributions over any set of modes equal those of the full state, and relabelling the modes of a state relabels every probability.",
     ["inputs", "configurations"], "all states, mode subsets and orders",
     "Tests use one or two subsets in increasing order.",
     [Q + "conversions.py", T + "symplectic.py", Q + "fock_tensors.py"],
     [("reduced_gaussian", Q + "conversions.py"), ("reduced_state", T + "symplectic.py"), ("n_body_marginals, find_classical_subsystem", Q + "fock_tensors.py")],
     "exhaustive enumeration of mode lists and permutations",
     "All ordered mode subsets of an alphabet of 1 to 5 mode states; marginals compared entry by entry.")
prop("C16", "Symplectic gates, embeddings, channels and orderings are what they claim",
     "Every gate constructor returns the real symplectic matrix of its documented transformation, embedding a gate acts on exactly the addressed modes in the given order, losses and passive channels equal their physical dilation, and the mode reorderings are mutually inverse permutations.",
     ["inputs", "configurations"], "all parameters, mode lists, sizes and matrix formats",
     "Tests sample parameters and consecutive modes; order, sparsity format and dtype interact.",
     [T + "symplectic.py"], [("gates, expand, expand_vector, expand_passive, loss, passive_transformation, orderings", T + "symplectic.py")],
     "exhaustive enumeration of parameter grids, mode lists and formats",
     "All mode lists up to 5 modes, parameter grids, dense and sparse formats, hbar values.")
prop("C17", "Representation conversions are mutually inverse and independent of hbar",
     "Converting covariances to Q matrices, adjacency matrices and complex displacements and back returns the original data for every state and every hbar, and the dimensionless representations do not depend on the unit of hbar.",
     ["inputs", "configurations"], "all states and hbar",
     "Tests check special states.", [Q + "conversions.py"], [("Qmat, Covmat, Amat, displacements", Q + "conversions.py")],
     "exhaustive enumeration of conversion sequences over a state alphabet",
     "All round trips for an alphabet of 1 to 5 mode states in several hbar conventions against independently built matrices.")
prop("C18", "Matrix decompositions reconstruct their input with valid factors",
     "The Williamson, Bloch-Messiah, Takagi and Iwasawa decompositions return factors whose product is the input and which have the documented structure (symplectic, orthogonal, unitary, ordered nonnegative diagonal), for every admissible input including degenerate ones.",
     ["inputs"], "all admissible matrices including degenerate and structured ones",
     "Random tests never meet degenerate spectra, zero or diagonal matrices.",
     [T + "decompositions.py"], [("williamson, blochmessiah, takagi, iwasawa", T + "decompositions.py")],
     "exhaustive enumeration of structured degenerate matrices",
     "All small integer/Gaussian symmetric matrices and alphabets with prescribed degenerate spectra; known findings are listed.")
prop("C19", "Validity, purity, classicality, fidelity and entanglement are decided correctly",
     "A covariance matrix is accepted as valid, pure or classical exactly when it is so (up to tolerance) in every unit of hbar; fidelity, entropies and logarithmic negativity equal their defining values, are invariant under the symmetries of the definition and reject invalid states.",
     ["inputs", "configurations"], "all states, partitions, hbar",
     "Tests use special states.", [Q + "gaussian_checks.py", Q + "entanglement.py"],
     [("is_valid_cov, is_pure_cov, is_classical_cov, fidelity", Q + "gaussian_checks.py"), ("entropies, log negativity", Q + "entanglement.py")],
     "exhaustive enumeration of states, partitions and symmetry actions",
     "An alphabet of 1 to 4 mode states with known answers, all bipartitions, several hbar conventions.")
prop("C20", "Graph encodings have the requested mean photon or click number",
     "The rescaled adjacency matrix and the Q matrix built from any graph give exactly the requested mean photon (or click) number and describe the scaled graph; the thermal and scaled variants behave likewise.",
     ["inputs"], "all graphs and requested means",
     "Tests use random graphs and one mean.", [Q + "adjacency_matrices.py", T + "csamples.py"],
     [("adj_scaling, adj_to_qmat, adj_scaling_torontonian", Q + "adjacency_matrices.py"), ("rescale_adjacency_matrix", T + "csamples.py")],
     "exhaustive enumeration of small graphs and a grid of means",
     "All graphs up to 4 vertices (classes up to 6), weighted and complex matrices, a grid of means.")
prop("C21", "Photon-number samples follow the exact distribution of the Gaussian state",
     "For every Gaussian state, hbar, cutoff and photon limit the law of the samples produced by the photon-number sampler, over all outcomes of its random draws, is the photon-number distribution of the state up to the documented truncation and rejection.",
     ["inputs", "programs"], "all outcomes of the sampler's random draws, for all states",
     "Statistical tests have percent tolerance on few states and never use another hbar.",
     [T + "samples.py"], [("generate_hafnian_sample, hafnian_sample_state, hafnian_sample_graph", T + "samples.py")],
     "probabilistic model checking of the implementation: all discrete branches, Gauss-Hermite cubature of the continuous draws",
     "The whole branching tree of the real sampler is executed under a controlled random source for 1 to 3 mode states.")
prop("C22", "Threshold samples follow the exact click distribution of the Gaussian state",
     "For every Gaussian state, hbar and displacement the law of the samples of the threshold sampler, over all outcomes of its random draws, converges to the exact click distribution as the fan-out grows and equals the fanned-out threshold law at each fan-out.",
     ["inputs", "programs"], "all outcomes of the sampler's random draws, for all states",
     "Statistical tests have percent tolerance on few states.",
     [T + "samples.py"], [("generate_torontonian_sample, torontonian_sample_state", T + "samples.py")],
     "probabilistic model checking of the implementation under a controlled random source",
     "The whole branching tree for 1 and 2 mode states.")
prop("C23", "Classical, rank-one, thermal and distinguishable samplers follow their laws",
     "The samplers for classical Gaussian states, rank-one graphs, thermal graphs, tabulated probabilities and distinguishable squeezers draw every outcome with exactly its model probability, over all outcomes of their random draws.",
     ["inputs", "programs"], "all outcomes of the random draws",
     "Statistical tests have wide tolerance.", [T + "samples.py", T + "csamples.py", Q + "distinguishable_squeezers.py"],
     [("classical samplers, photon_number_sampler, rank one", T + "samples.py"), ("thermal samples", T + "csamples.py"), ("sample", Q + "distinguishable_squeezers.py")],
     "probabilistic model checking of the implementation under a controlled random source",
     "All discrete branches, cubature of Gaussian draws, for small alphabets of inputs.")
prop("C24", "Samplers return the requested number of in-range samples under every schedule",
     "Every sampler call returns exactly the requested number of samples, each with one entry per mode within the documented range and limits, is reproducible after seeding, and in parallel mode the result is one that independent sequential draws could give, whatever the thread interleaving.",
     ["schedules", "inputs", "configurations"], "all thread interleavings and draw outcomes",
     "Tests run one uncontrolled schedule.", [T + "samples.py"], [("*_sample_state loops and thread pool", T + "samples.py")],
     "stateless exploration of thread interleavings of the real samplers with a preemption bound",
     "All interleavings at random-draw and call granularity for 2-3 samples, and all rejection histories up to a depth.")
prop("C25", "Calls do not modify their arguments or depend on earlier calls",
     "No public function changes its array arguments, and its result does not depend on which other public calls were made before, on memory layout or on aliasing between its arguments.",
     ["histories", "inputs"], "all call sequences and argument aliasings",
     "Tests call each function on fresh arguments.", [T, Q], [("copies of inputs, caches", T)],
     "exhaustive exploration of call sequences over the public API",
     "All ordered pairs of public calls, repeated calls and all layouts, with bitwise comparison of arguments.")
prop("C26", "Parallel kernels give the sequential result for every schedule",
     "The results of the parallel kernels do not depend on the number of threads, chunking or interleaving of the loop iterations.",
     ["schedules"], "all partitions of the iteration space and interleavings of iterations",
     "Tests run one thread count with uncontrolled scheduling; a race shows rarely.",
     [T + "_hafnian.py", T + "_torontonian.py", T + "_permanent.py", T + "loop_hafnian_batch.py", T + "loop_hafnian_batch_gamma.py", T + "_low_rank_haf.py"],
     [("numba.prange loops", T + "_hafnian.py")],
     "controlled scheduling of loop bodies of the real source with preemption bound, and enumeration of thread counts and chunk sizes on the compiled code",
     "Iteration orders and preemption-bounded interleavings at statement granularity for small sizes; compiled kernels under 1-8 threads and all small chunk sizes.")
prop("C27", "No kernel reads or writes outside its arrays",
     "Every compiled routine accesses its arrays only within their bounds and never returns values that depend on uninitialised memory, for every valid input.",
     ["inputs"], "all valid inputs including empty and minimal sizes",
     "Out-of-range accesses in compiled code return garbage silently; tests run without bounds checks.",
     [T], [("numba kernels", T)],
     "exhaustive enumeration of shapes and parameters with instrumented (bounds-checked) kernels",
     "All sizes, cutoffs and multiplicities in the bounds with index checking enabled.")
prop("C28", "Total photon-number laws agree with the state and its generating function",
     "The total photon-number distribution of pure and of lossy squeezed states equals the sum of the probabilities of all patterns with that total, and the characteristic function equals the corresponding weighted sum.",
     ["inputs"], "all states, cutoffs, hbar, parameters",
     "Tests use one or two parameter sets.", [Q + "photon_number_distributions.py"],
     [("pure_state_distribution, total_photon_number_distribution, characteristic_function", Q + "photon_number_distributions.py")],
     "exhaustive enumeration of totals by explicit convolution of the exact one-mode laws",
     "All totals below the cutoff for grids of parameters.")
prop("C29", "Random matrix generators return valid objects for every draw",
     "The random interferometers, symplectic and covariance matrices are valid (unitary, symplectic, physical, pure, block-diagonal or banded as requested) whatever values the random source returns, and are reproducible for equal draws.",
     ["inputs", "configurations"], "all values of the random draws, sizes and options",
     "Tests look at a few draws.", [T + "random.py"], [("random_* generators", T + "random.py")],
     "enumeration of draw patterns through a controlled random source",
     "A grid of draw patterns including extreme ones for sizes 1 to 7 and all options.")
prop("C30", "Reference enumerators list every matching exactly once whatever the call history",
     "The reference generators yield each (single-pair, reduced) perfect matching exactly once for every number of points, also when several iterations over the same memoised arguments are interleaved or abandoned.",
     ["histories", "inputs"], "all interleavings of iterators over memoised generators",
     "Tests exhaust each generator once.", [T + "reference.py"], [("memoised generators", T + "reference.py")],
     "explicit-state exploration of interleaved iterator histories",
     "All interleavings of two iterators over small sets and all sizes up to 8 points.")
prop("C31", "Monte Carlo estimators are unbiased",
     "The random hafnian approximation and the grouped click probabilities have the exact value as mean over their random draws.",
     ["inputs", "programs"], "all outcomes of the random draws",
     "Tests have percent tolerance.", [T + "_hafnian.py", T + "grouped_click_probabilities.py"],
     [("hafnian_approx", T + "_hafnian.py"), ("grouped_click_probabilities", T + "grouped_click_probabilities.py")],
     "cubature over all draws of the real estimators under a controlled random source",
     "Complete product rules over the draws for small sizes.")
prop("C32", "Inadmissible inputs are rejected, not silently processed",
     "Inputs that violate the documented preconditions (wrong types, non-square, asymmetric, NaN, incompatible dimensions, unphysical states) raise an error instead of returning a value, and admissible inputs are not rejected.",
     ["inputs"], "all inadmissible inputs of the documented kinds",
     "Tests check one example per function.", [T, Q], [("input checks", T)],
     "exhaustive enumeration of single-fault corruptions of valid inputs",
     "Every documented precondition of every public entry point, violated at every position, for sizes 1 to 4.")
prop("C33", "Truncation bounds are true upper bounds",
     "The bounds on the total variation distance due to a photon-number cutoff are never below the true probability mass outside the cutoff and equal the sum of the single-mode tails.",
     ["inputs"], "all states, cutoffs and hbar",
     "Tests use one state.", [Q + "fock_tensors.py"], [("tvd_cutoff_bounds", Q + "fock_tensors.py")],
     "exhaustive enumeration of states and cutoffs",
     "All cutoffs for an alphabet of 1 to 3 mode states.")


def main():
    claimed = [p for p in P if os.path.exists(os.path.join(HERE, "mc", "checks", p["id"].lower() + ".py"))]
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                            "hook_needed": None}}) + "\n")
    import re

    checks = []
    for p in claimed:
        src = open(os.path.join(HERE, "mc", "checks", p["id"].lower() + ".py")).read()
        level = re.search(r'^LEVEL = "(\w+)"', src, re.M).group(1)
        cmd = "/opt/venv/bin/python -B -m mc run " + p["id"]
        checks.append({"property": p["id"], "quick_cmd": cmd + " --tier quick", "thorough_cmd": cmd + " --tier thorough",
                       "evidence_file": "evidence/%s.json" % p["id"], "technique": p["technique"], "level": level,
                       "level_note": p["note"]})
    m = {"version": 1, "setup_cmd": "/opt/venv/bin/python -B -c \"import mc, mc.oracles, mc.gauss, mc.core\"", "checks": checks,
         "not_applicable": [{"property": p["id"], "reason": "check under construction"} for p in P if p not in claimed],
         "notes": "Every check imports thewalrus from /repo's working tree and compiles its kernels afresh (no on-disk cache is reused)."}
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
    print(len(claimed), "claimed of", len(P))


if __name__ == "__main__":
    main()
