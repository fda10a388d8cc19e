"""Writes properties.jsonl and MANIFEST.json (run by hand, output is committed)."""

import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LIB, COM, GRA, DIS, RAN, UTI = (
    "src/ff/ff_lib.py", "src/ff/ff_combinatorics.py", "src/ff/ff_graph_theory.py",
    "src/ff/ff_distance_measures.py", "src/ff/ff_random_states.py", "src/ff/ff_utils.py",
)
P = []


def prop(pid, title, statement, over, text, why, mech, observe=None, state=None):
    files = sorted({f for f, _, _ in mech})
    P.append(
        {
            "id": pid,
            "title": title,
            "statement": statement,
            "quantifier": {"over": over, "text": text},
            "why_tests_cant": why,
            "anchors": {
                "files": files,
                "mechanism": [{"name": n, "where": f"{f}: {w}"} for f, w, n in mech],
                **({"state": state} if state else {}),
                "observe_at": observe or ["arguments and return value of every call, including the calls the library makes to itself"],
                "hook_needed": None,
            },
        }
    )


I, Hi, Sc = "inputs", "histories", "schedules"

prop("C01", "Jordan-Wigner operators realise the fermionic algebra",
     "For every number of sites, the raising, lowering and Majorana operators are exactly the matrices of the Jordan-Wigner encoding (first site leftmost in the tensor product, string of Z on the sites before it), returned in the documented order. They satisfy the canonical anticommutation relations to machine precision: lowering and raising operators of one site anticommute to one, all other pairs to zero, and the Majorana operators are Hermitian and anticommute to the identity times the Kronecker delta.",
     [I, Hi], "all sites counts (1..10 explored) asked for in any order and repeatedly",
     "tests look at 1-3 sites and a few pairs; the relations quantify over all sizes, pairs and call orders",
     [(LIB, "jordan_wigner_lowering", "Z-string construction"), (LIB, "jordan_wigner_alphas", "ordering raising then lowering"), (LIB, "jordan_wigner_majoranas", "normalised combinations")])
prop("C02", "Pauli group enumeration is complete, ordered and orthogonal",
     "For n qubits the enumeration returns exactly the 4^n n-fold tensor products of the identity and the three Pauli matrices, each once, in lexicographic order with the first qubit most significant, and the printed labels (when asked for) name the operators in that order. Every one is Hermitian and unitary, they are mutually trace-orthogonal, and invalid qubit numbers are refused.",
     [I, Hi], "qubit numbers 1..6, verbose or not, repeated in any order",
     "tests check 1-2 qubits and counts; order and completeness quantify over all sizes",
     [(LIB, "generate_pauli_group", "product enumeration"), (LIB, "pauli_matrices", "single-qubit basis")])
prop("C03", "Coefficient-matrix builders follow their defining block formulas",
     "For every size and every pair of a Hermitian hopping block and a skew pairing block (or an omitted one, meaning zero), the Hamiltonian form is [[-A*, B], [-B*, A]], the V form is the same Hamiltonian with its block rows swapped, and the Kitaev chain has the documented nearest-neighbour entries. The basis-change matrices are unitary and map ladder to Majorana operators and between the two orderings as documented, and a permutation matrix represents its permutation.",
     [I], "sizes 1..70, all block classes (real, complex, imaginary, integer dtype, degenerate, zero, omitted block)",
     "tests use one or two small matrices, mostly real, where conjugation and sign errors cancel",
     [(LIB, "build_H", "block assembly"), (LIB, "build_V", "block assembly"), (LIB, "kitaev_chain", "chain coefficients"), (LIB, "build_Omega", "ladder-Majorana change of basis"), (LIB, "build_reordering_xx_to_xp", "interleaving permutation"), (LIB, "build_K", "combined basis change"), (LIB, "permutation_to_matrix", "permutation matrix")])
prop("C04", "Quadratic operators and operator rotations are linear lifts",
     "Lifting a coefficient matrix R over an operator list gives exactly sum_ij R_ij a_i^dagger a_j (or sum_ij R_ij a_i a_j in the direct form), for every list of operators and every coefficient matrix however small its entries. Rotating an operator list by C gives b_j = sum_i C_ji a_i (on request sum_i a_i C_ij^*), whichever way the two arguments are ordered and whether or not reporting is on, and the reported algebra matrix holds the anticommutators of the list.",
     [I], "1..8 sites, all coefficient classes incl. entries down to 1e-9, ladder / Majorana / rotated / permuted operator lists, every option",
     "tests sample a few well-scaled matrices; linearity and covariance quantify over all coefficients and lists",
     [(LIB, "build_op", "double sum"), (LIB, "rotate_operators", "argument order, side"), (LIB, "_perform_rotation", "single sum"), (LIB, "compute_algebra_S", "anticommutators")])
prop("C05", "Symplectic diagonalisation is exact for every quadratic Hamiltonian",
     "For every valid coefficient matrix, including degenerate, zero-mode, low-rank and integer ones, diagonalisation returns a real spectrum of the form diag(-Sigma, Sigma) and a unitary of block form [[s, t*], [t, s*]] that preserves the fermionic algebra, diagonalises the matrix and reconstructs it. The V form returns the same spectrum in antidiagonal form under the transpose congruence, and the many-body spectrum is the set of signed sums of Sigma.",
     [I], "1..40 sites, 20x11 block classes, prescribed spectra with degeneracies and zero modes, decoupled sites; largest entry between 1e-4 and 2e3",
     "tests use random generic matrices, which are almost never degenerate; the hard inputs are a measure-zero set",
     [(LIB, "eigh_sp", "real Schur form of the Majorana coefficients, reordering"), (LIB, "eigv_sp", "conversion to the V form")])
prop("C06", "Majorana coefficient matrices diagonalise by real orthogonal matrices",
     "For every valid Majorana coefficient matrix, both output forms return a real orthogonal transform O such that O^T G O equals the returned eigenvalue matrix, which has the promised shape (antidiagonal blocks, or a direct sum of 2x2 antisymmetric blocks) and the exact pairs +-lambda of the matrix. This includes zero modes and degenerate pairs.",
     [I], "1..40 sites, the same structured classes as for ladder coefficients",
     "tests use generic matrices; zero modes shift blocks out of alignment and only structured inputs show it",
     [(LIB, "eigm_sp_can", "sorted real Schur form, block flips"), (LIB, "eigm_sp", "reduction to the ladder form")])
prop("C07", "Structural predicates accept exactly the members of their class",
     "The predicates for symplectic matrices, for the canonical block-diagonal form and for the matchgate condition answer yes for every member of the class and no for every matrix that misses one defining condition by more than the documented tolerance, whatever its dtype, size or shape.",
     [I], "members of each class built independently and near-members one perturbation away (entry, sign, phase, transposition, misaligned block, scale, imaginary part), magnitudes 1e-3..10",
     "tests try a few positive and blatant negative cases; a dropped condition shows only on near-members",
     [(LIB, "is_symp", "block and congruence test"), (LIB, "check_canonical_form", "structure test"), (LIB, "is_matchgate", "determinant comparison")])
prop("C08", "Gaussian states are the thermal states of their Hamiltonians",
     "For every Hermitian quadratic Hamiltonian, given as coefficient matrix (over the default or a passed operator list) or as a many-body operator, the returned state is exp(-H)/Tr exp(-H): Hermitian, positive, normalised, commuting with the Hamiltonian and unchanged by adding a constant to a many-body operator. Its two-point function is the matrix Fermi function of the coefficients.",
     [I], "1..8 sites, every block class, temperatures over three decades, spectral norm up to 250",
     "tests check trace and Hermiticity of a few states; the exponential itself is compared for none",
     [(LIB, "generate_gaussian_state", "exponential and normalisation, input dispatch")])
prop("C09", "Two-point and covariance matrices are the exact operator moments",
     "For every operator rho and operator list, each entry of a two-point matrix is the trace of rho with the corresponding product of two operators, the first, second or neither conjugated as requested, and the covariance matrix is its antisymmetric part (entry minus transposed entry). Omitted arguments mean the standard ladder operators of the system rho lives on.",
     [I], "1..7 sites, 17 state classes and non-Hermitian operators, five kinds of operator list, every conjugation mode, every optional argument given or omitted",
     "tests use one or two states where conjugation, index order and default handling coincide",
     [(LIB, "compute_2corr_matrix", "moments"), (LIB, "compute_cov_matrix", "antisymmetrised moments"), (LIB, "correlation_matrix", "ladder moments")])
prop("C10", "Gaussian states obey Wick's theorem, Gaussian evolution and reduction",
     "For every state the library presents as free-fermionic, each higher moment of linear fermion operators equals the Pfaffian of its two-point moments and odd moments vanish (for states of definite parity). Conjugating by the exponential of a quadratic operator rotates the two-point matrix by the exponential of its coefficients, and the reduction to leading sites has the corresponding sub-block.",
     [I, Hi], "states from all sources (thermal, random mixed/pure/fixed number, rotated), 4-, 6-, 8-point products of ladder, Majorana and mixed operators; non-Gaussian controls must violate it",
     "a relation across five modules that no unit test composes",
     [(LIB, "generate_gaussian_state", "thermal states"), (LIB, "random_FF_state", "random states"), (LIB, "compute_2corr_matrix", "moments"), (COM, "pf", "Pfaffian"), (UTI, "partial_trace_blockTr", "reduction")])
prop("C11", "Random rotations, states and generators are mutually consistent",
     "For one seed or generator state, the orbital matrix, the quadratic generator and the many-body unitary of a random rotation describe the same transformation: the orbital matrix is a proper symplectic rotation, the unitary is the exponential of -i times the generator and conjugation by it mixes the ladder operators by the orbital matrix. A random state requested together with its generator equals the state requested alone, is the thermal (or rotated vacuum) state of that generator, and conserves particle number when that was asked for.",
     [I, "configurations", Hi], "1..5 sites, many seeds and ambient generator states, all option combinations",
     "tests check shapes and norms per option; agreement between options is checked nowhere",
     [(LIB, "random_FF_rotation", "orbital rotation, logarithm, exponential"), (LIB, "random_FF_state", "state construction"), (LIB, "random_H_generator", "coefficients")])
prop("C12", "Every random generator returns a member of its class",
     "Whatever the size, options and randomness, pure-state generators return normalised vectors, mixed-state generators return Hermitian positive unit-trace matrices, free-fermion generators return Gaussian states (definite parity, and a fixed particle number where promised), the Clifford generator returns stabilizer states, and the bit-string generator returns exactly the requested weight.",
     [I, "configurations"], "every generator x sizes x seeded and unseeded draws",
     "tests draw a handful of samples per generator and check norms and shapes only",
     [(RAN, "random_qubit_state / random_qubit_pure_state / random_CHP_state", "qubit states"), (RAN, "random_FF_*", "free-fermion states"), (LIB, "random_FF_state", "free-fermion states"), (UTI, "generate_random_bitstring", "fixed weight")])
prop("C13", "Seeded generation is a function of the seed alone",
     "Every seeded generator returns the same result for the same arguments and seed, in any process, after any history of other calls and from any state of the ambient random generators, for every seed including zero; different seeds give different results. Unseeded calls differ from each other and are determined by the ambient generator state alone.",
     [I, Hi, "configurations"], "11 generators with every option, seeds 0, 1, large and random, interleaved histories, fresh processes with other hash seeds",
     "tests repeat one seed in one process, immediately",
     [(RAN, "np.random.seed calls", "seeding"), (LIB, "np.random.seed calls", "seeding"), (GRA, "generate_random_planar_graph", "seeding of the random module")],
     state=[{"name": "global random generators", "meaning": "source of all randomness", "where": "numpy.random, random"}])
prop("C14", "Random generators follow their documented laws",
     "Random vectors and free-fermion rotations are Haar distributed, spectra drawn for mixed states are Dirichlet distributed, Hamiltonian coefficients are independent standard Gaussians, particle numbers and bit strings are uniform over the allowed values, inverse temperatures are exponentially distributed, and Clifford states are uniform. This holds seeded (over seeds) and unseeded.",
     [I, Hi], "about 30 (generator, size) laws; first, second and fourth moments and cell frequencies of recorded samples within 7 standard errors",
     "no test looks at a distribution",
     [(RAN, "random_*", "sampling"), (LIB, "random_FF_rotation", "special orthogonal sampling"), (LIB, "random_H_generator", "coefficients"), (UTI, "generate_random_bitstring", "uniform choice")])
prop("C15", "State paths start and end where promised and stay normalised",
     "For every pair of nonzero vectors of equal dimension, the unitary path starts at the first and ends at the second normalised vector, stays normalised and moves continuously, also for equal, opposite, parallel and orthogonal pairs and vectors with zero leading entries; the linear path returns the normalised straight-line interpolation (antiparallel midpoint excepted). The orthonormal completion of a vector is a unitary matrix whose first column is the normalised vector, for every nonzero vector of dimension at least two.",
     [I, Hi], "dimension 2..130, fourteen pair classes, scales 1e-3..1e3, sample points in any order and repeated",
     "tests use a few generic pairs; the degenerate pairs are where phases and branch cuts matter",
     [(RAN, "build_unitary_path", "matrix logarithm of a connecting unitary"), (RAN, "build_linear_path", "interpolation"), (RAN, "get_orthogonal_vectors", "QR completion")])
prop("C16", "Casting between wavefunctions, distributions and density matrices",
     "A unit vector becomes its projector, a normalised distribution the diagonal matrix, and a density matrix is returned unchanged, in every container form; the distribution of a state holds its Born probabilities, real, never negative and summing to one. Casting is idempotent, independent of global phase, and agrees between representations of the same state. A vector that is neither a unit vector nor a distribution (another norm, or signs or phases on probabilities) is refused.",
     [I], "dimension 2..300 incl. non-powers of two, 5 wavefunction, 11 distribution, 17 density-matrix classes, 7 containers, populations negative by rounding",
     "tests use a handful of tidy vectors",
     [(UTI, "cast_to_density_matrix", "classification and validation"), (UTI, "cast_to_pdf", "Born probabilities")])
prop("C17", "Partial traces and direct sums are exact for every operator",
     "For every matrix on a composite space and every divisor d of its dimension, one partial trace keeps the leading and the other the trailing factor of dimension d, linearly and preserving the trace; a product operator reduces to its factor times the trace of the other, and the names exported at package level keep the factor they keep today (\"over 2\" the first, \"over 1\" the second). The direct sum places two matrices of any shape on the block diagonal with zeros elsewhere.",
     [I], "all factorisations of dimensions up to 390 with unequal factors, complex/real/integer non-Hermitian operators, rectangular blocks",
     "tests use two-qubit states with equal factors, where the two reductions are easily confused",
     [(UTI, "partial_trace_diagblocksum", "sum of diagonal blocks"), (UTI, "partial_trace_blockTr", "block traces"), (UTI, "kron_plus", "block assembly"), ("src/ff/__init__.py", "package aliases", "exported names")])
prop("C18", "Display helpers round without corrupting values or settings",
     "Cleaning zeroes what is below the threshold in magnitude, rounds the rest to the digits of the threshold, drops an imaginary part only when all of it is below the threshold, and is idempotent; the caller's data is untouched. Formatted text parses back to the value at the requested precision, and printing leaves the process-wide print settings as they were, even when printing fails.",
     [I, "fault_sequences"], "values over 14 decades around the threshold in every container, integer and float thresholds, failing output streams",
     "tests clean a few numbers far from the threshold and never a failing stream",
     [(UTI, "clean / _round_small", "rounding and zeroing"), (UTI, "formatted_output", "formatting"), (UTI, "print_custom / _print", "print options saved and restored")],
     state=[{"name": "numpy print options", "meaning": "process-wide setting changed during printing", "where": "src/ff/ff_utils.py: _print"}])
prop("C19", "Signs, Pfaffians, Hafnians, permanents and determinants are exact",
     "For every permutation the sign is its parity, and for every square matrix of any numeric type (and nested lists where accepted) the Pfaffian, Hafnian, permanent and both determinants equal their defining expansions; integer matrices give the exact value also beyond the machine integer range. Order zero and odd orders give the conventional values.",
     [I], "all permutations to length 6 and random to 600; matrices of order 0..8 in every structural class and dtype",
     "tests evaluate a few 2x2 and 4x4 matrices; overflow, dtype and structure classes are untouched",
     [(COM, "pf", "expansion"), (COM, "hf", "expansion"), (COM, "pt", "expansion"), (COM, "dt", "expansion"), (COM, "dt_eigen", "eigenvalues"), (COM, "sgn", "parity")])
prop("C20", "Perfect-matching counts are correct for every graph",
     "For every simple graph the number of perfect matchings is returned: by Pfaffian orientation for planar graphs (weighted by the product of positive edge weights) and by enumeration otherwise, independently of labels, node order, edge order and connectivity, zero when there is none. The enumeration lists every perfect matching exactly once.",
     [I], "31 planar families up to 60 vertices, 11 non-planar ones, 10 labellings, 5 weightings, disconnected, bridges, cut vertices, isolated vertices",
     "tests count a few connected graphs labelled 0..n-1",
     [(GRA, "count_perfect_matchings", "dispatch"), (GRA, "count_perfect_matchings_planar", "square root of a determinant"), (GRA, "find_perfect_matchings_brute", "enumeration"), (GRA, "pfo_algorithm", "orientation")])
prop("C21", "Pfaffian orientations, faces, duals and face completion are valid",
     "For every planar graph the orientation orients exactly its edges, skew-symmetrically, such that all perfect matchings contribute with one sign; the faces are those of the planar embedding, each directed edge in exactly one. The reduced dual of a spanning tree has one vertex per face, an edge for each non-tree edge and is a tree, and completing a face orients its one open edge so that the face has an odd number of edges against its direction, leaving all others alone.",
     [I], "31 planar families up to 60 vertices, 10 labellings and node orders, arbitrary spanning trees, random partial orientations",
     "tests use a few connected 0..n-1 labelled graphs and the tree the code itself picks",
     [(GRA, "pfo_algorithm", "FKT algorithm"), (GRA, "faces", "embedding traversal"), (GRA, "dual_graph_H", "dual of the non-tree edges"), (GRA, "complete_face", "orientation of the last edge")])
prop("C22", "Random planar graphs, tree depth and plotted data are faithful",
     "The random planar graph generator returns a connected planar simple graph on exactly the requested nodes, and the tree depth is the distance from the first node to its farthest node. Plotting functions draw and return exactly the data they are given: one node per row, one edge per nonzero entry with its weight, direction exactly when the weights are not symmetric, the given matching highlighted, and the populations and eigenvalues of the analysed state.",
     [I], "graphs of 2..40 vertices over many seeds, trees up to 3000 vertices in any labelling, 11 matrix classes, all containers; drawn artists read back",
     "tests only check that plotting does not raise",
     [(GRA, "generate_random_planar_graph", "rejection sampling"), (GRA, "compute_tree_depth", "longest shortest path"), (GRA, "plot_graph_with_edge_weights", "adjacency to drawing"), (GRA, "plot_planar_embedding", "embedding drawing"), (UTI, "analyze_pdf", "population plot")])
prop("C23", "Stabilizer distribution and stabilizer entropy are exact",
     "For every state of n qubits the stabilizer distribution holds the squared Pauli expectation values in the enumeration order, normalised to one, and the stabilizer entropy of order a is its Renyi entropy of that order minus the logarithm of the dimension (zero for the maximally mixed state). It vanishes exactly on pure stabilizer states, is invariant under Clifford operations and additive on product states.",
     [I], "1..5 qubits, 17 mixed and 5 pure classes in every container, orders 0.5..infinity, random Clifford circuits",
     "tests check a few single-qubit states",
     [(DIS, "stabilizer_distribution", "Pauli expectations"), (DIS, "SRE", "entropy and offset"), (LIB, "generate_pauli_group", "order")])
prop("C24", "Renyi and linear entropies are exact for every order",
     "For every distribution (or state, through its populations) and every order from zero to infinity the Renyi entropy equals its definition, with the Hartley, Shannon and min-entropy limits at 0, 1 and infinity, and the linear entropy is one minus the sum of squared probabilities. The Renyi entropy lies between zero and the logarithm of the dimension, does not increase with the order, does not depend on the order of outcomes and adds over independent distributions.",
     [I], "11 distribution classes, dimension 2..256, orders 0, near 1, fractional, up to 1e4 and infinity",
     "tests use uniform and delta distributions at orders 1 and 2, where most errors vanish",
     [(DIS, "renyi_entropy", "cases of the order"), (DIS, "linear_entropy", "two formulas cross-checked")])
prop("C25", "Divergences between outcome distributions are exact and satisfy their axioms",
     "For every pair of distributions or states, total variation distance, relative entropy, Bhattacharyya coefficient and Jensen-Shannon divergence equal their definitions on the outcome distributions, with the infinite and zero limits where supports differ. They stay in their ranges, are symmetric where they should be, vanish (or are one) exactly on equal distributions, do not grow under coarse graining and obey the standard inequalities between them.",
     [I], "pairs and triples over 11 distribution classes with zeros, disjoint or nested supports, mixed containers, dimension 2..256",
     "tests use a few strictly positive pairs",
     [(DIS, "total_variation_distance", "definition"), (DIS, "relative_entropy", "support handling"), (DIS, "bhattacharyya_coeff", "definition"), (DIS, "jensen_shannon_divergence", "mixture")])
prop("C26", "Trace distance is the quantum trace distance",
     "For every pair of states in any representation the trace distance is half the trace norm of the difference. It is a metric bounded by one, invariant under unitaries, does not grow under partial trace or dephasing, and equals sqrt(1 - overlap squared) for pure states.",
     [I], "pairs and triples of 17 mixed and 5 pure classes, dimension 2..200, mixed containers, equal and orthogonal pairs",
     "tests use one-qubit pairs, mostly commuting",
     [(DIS, "trace_distance", "singular values")])
prop("C27", "Covariance distribution and anti-flatness are exact",
     "For every state of n modes the covariance distribution holds the squared singular values of the Majorana covariance matrix, one per pair, and the anti-flatness of order k is n minus the sum of their k-th powers. It vanishes on pure Gaussian states, is invariant under Gaussian unitaries, stays in its range, and adds over products of even states.",
     [I], "1..7 qubits, 17 mixed and 5 pure classes, Gaussian orbits, degenerate and vanishing covariance, orders 1..8",
     "tests check that Gaussian states give zero for a few seeds",
     [(DIS, "cov_distribution", "normalised squares"), (DIS, "FAF", "anti-flatness")])
prop("C28", "Calls have no side effects and do not depend on history",
     "A call returns the same result as the first such call in a fresh process, whatever was called before and whatever the caller has since done to earlier results; reporting options do not change results. No call alters its arguments (except the documented in-place face completion), results handed out before, the print, error or plotting settings, the warning filters or the environment, and only random functions touch the random generators.",
     [Hi, I], "random histories over about 90 call forms of the whole public surface, with results overwritten, repeated and reordered calls",
     "tests call functions once in isolation; caches, shared buffers and leaked settings show only across calls",
     [(LIB, "all functions", "no module state"), (COM, "all functions", "no module state"), (GRA, "all functions", "copies before modification"), (DIS, "all functions", "no module state"), (RAN, "closures of the path builders", "own copies"), (UTI, "all functions", "settings restored")],
     observe=["argument and result digests around every call", "process-wide state before and after every call", "the same call in a process that has made no other call"])
prop("C29", "Results depend on the values of inputs, not on their storage",
     "Every function taking arrays returns the same result for equal values stored in C or Fortran order, strided, reversed, offset or read-only, and for the same values held as integer, real or complex data, and it never writes to them.",
     [I], "every public function taking arrays x 6 layouts x available dtypes",
     "tests pass fresh C-ordered arrays of one dtype",
     [(LIB, "np.zeros_like, allclose, in-place sums", "dtype and layout handling"), (COM, "_exact", "integer handling"), (UTI, "cast_to_density_matrix", "conversion"), (DIS, "all functions", "conversion"), (RAN, "path builders", "conversion")])
prop("C30", "Concurrent callers get the results of a lone caller",
     "When several threads call deterministic functions of the library at the same time, with their own or shared read-only arguments, every call returns what it returns to a lone caller and leaves shared arguments unchanged.",
     [Sc, I, Hi], "2..8 threads, same function or mixtures, 1 microsecond switch interval and injected delays; excludes random, plotting and printing functions, which use process-wide state",
     "no test uses threads; shared scratch state is invisible to a single thread",
     [(LIB, "all functions", "no shared mutable state"), (COM, "all functions", "no shared mutable state"), (GRA, "all functions", "no shared mutable state"), (DIS, "all functions", "no shared mutable state"), (UTI, "clean, casts, partial traces", "no shared mutable state")],
     observe=["per-thread call and return events with time stamps, results compared with a serial run"])
prop("C31", "Invalid inputs are refused and refusing is harmless",
     "Sizes that are not positive integers, particle numbers out of range, vectors that are neither normalised wavefunctions nor distributions, matrices that are not states (wrong trace, not Hermitian, indefinite, not square) wherever a state is expected, subsystem dimensions that do not divide, non-planar graphs and non-trees where planarity or a tree is required, and matrices without the required structure for diagonalisation are refused with an exception or the documented negative answer, never answered with a number. A refused call leaves its arguments and all later calls unaffected.",
     [I, Hi], "per entry point, violations from blatant to just outside tolerance, followed by valid calls",
     "tests try one blatant violation per check, and never the functions that rely on a check made elsewhere",
     [(UTI, "cast_to_density_matrix", "state validation"), (RAN, "size checks at entry", "size validation"), (LIB, "generate_pauli_group, eigh_sp, eigm_sp_can", "validation"), (DIS, "linear_entropy", "length validation"), (GRA, "count_perfect_matchings_planar, compute_tree_depth", "graph validation"), (COM, "dt_eigen", "shape validation")])

TECH = {
    "C13": "runtime monitoring: replay of recorded calls across histories and processes",
    "C14": "runtime monitoring: offline statistical checker over recorded samples",
    "C28": "runtime monitoring: history monitor with fresh-process reference and state digests",
    "C29": "runtime monitoring: differential monitor over storage variants",
    "C30": "runtime monitoring: threaded stress with serial-result checker",
    "C31": "runtime monitoring: rejection monitor with state digests",
}
NOTE = {
    "C13": "every comparison is exact up to 1e-10; explored over the listed generators, options, seeds and histories",
    "C14": "finite samples, 7 standard errors: distortions of a few percent in the tested moments and cells are visible, smaller ones are not",
    "C28": "explored histories only; process-wide state is the listed set of settings",
    "C30": "interleavings are those CPython produces under a 1 us switch interval and injected delays; native numpy calls are observed only through their results",
}


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as fh:
        for p in P:
            fh.write(json.dumps(p) + "\n")
    checks = []
    for p in P:
        i = p["id"]
        checks.append(
            {
                "property": i,
                "quick_cmd": f"./check.sh {i} --tier quick",
                "thorough_cmd": f"./check.sh {i} --tier thorough",
                "technique": TECH.get(i, "runtime monitoring: contract monitors on every call (nested ones included) with independent reference oracles, under generated workloads"),
                "level": "exploration",
                "level_note": NOTE.get(i, "held on the executions observed: " + p["quantifier"]["text"] + "; trusts numpy/scipy/networkx and the independent oracles in ffmon/oracles.py"),
            }
        )
    m = {
        "version": 1,
        "setup_cmd": "./setup.sh",
        "checks": checks,
        "not_applicable": [],
        "notes": "Pure-Python numeric library: no build step and no hooks in /repo; monitors are attached from outside by wrapping the public functions in every namespace that binds them. Checks import /repo/src directly. Known and repaired defects: known_findings.jsonl.",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as fh:
        json.dump(m, fh, indent=1)
        fh.write("\n")


main()
