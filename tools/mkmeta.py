#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (run by hand when they change)"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M, S, L, F, SP = ('mpnum/mparray.py', 'mpnum/mpstruct.py', 'mpnum/linalg.py',
                  'mpnum/factory.py', 'mpnum/special.py')
PS, PO, LP = 'mpnum/mpsmpo.py', 'mpnum/povm/mppovm.py', 'mpnum/povm/localpovm.py'
EX, AT, PH, PM = ('mpnum/utils/extmath.py', 'mpnum/utils/array_transforms.py',
                  'mpnum/utils/physics.py', 'mpnum/utils/pmf.py')
I, H, C, P = 'inputs', 'histories', 'configurations', 'programs'

PROPS = [
 ('C01', 'Conversion between dense arrays and matrix product arrays is exact',
  'Converting a dense array to a matrix product array and back, in local or global leg order and with any distribution of the legs over the sites, reproduces the array up to rounding, with the requested legs per site and virtual legs where they were asked for. A product of local factors becomes a rank-one tensor equal to their outer product. Converting to a dense array always yields the contraction of the local tensors, whatever the canonical form, ranks and data types are.',
  [I, C], 'all array shapes, leg distributions, dtypes, memory layouts, scales, canonical forms',
  'The tests convert a few homogeneous random arrays; leg distributions, dtypes, layouts, degenerate dimensions and rank-deficient content are an unbounded product.',
  [M, AT], [('from_array / _extract_factors (sequential QR)', M), ('to_array / _ltens_to_array', M), ('global_to_local, local_to_global', AT)]),
 ('C02', 'Arithmetic agrees with arithmetic of the dense tensors',
  'For any matrix product arrays of equal physical shape, sums, differences, weighted sums of lists, negation and (in-place) multiplication and division by scalars represent exactly the tensor obtained by the same operation on the dense tensors, up to rounding. This holds for mixed ranks, data types and canonical forms and for every sequence of such operations. The result data type is able to hold the result, and operands of operations that are not in-place keep their value.',
  [I, P], 'all operands, scalars, weights and programs of arithmetic operations',
  'The tests apply one operation at a time to operands of equal dtype produced by the same factory.',
  [M], [('__add__, sumup, _local_add (block diagonal bond spaces)', M), ('__mul__, __imul__, __truediv__, __itruediv__', M)]),
 ('C03', 'Operations on physical legs agree with the same operation on the dense tensor',
  'Transposition, conjugation, adjoint, reshaping and flattening of physical legs, fixing leg values, iterating over a leg, summing over legs (for every documented form of the axes argument) and extracting diagonals act on the represented tensor as the corresponding operation on the dense array. The number of sites and the assignment of the untouched legs to sites are preserved, and the operand keeps its value.',
  [I, C], 'all tensors and all axes / shape arguments, inhomogeneous sites',
  'Axes arguments have one choice per site; tests use the same choice on homogeneous chains.',
  [M], [('transpose, reshape, get, axis_iter, sum, ravel', M), ('diag, _local_transpose, _local_reshape', M)]),
 ('C04', 'Regrouping sites and converting virtual legs never changes the tensor',
  'Grouping and splitting sites, turning a virtual leg into physical legs and back, splitting the chain, reversing it, padding ranks and pruning sites without legs keep the represented tensor (with legs in the documented order), for every position and in every combination. Inverse operations undo each other, and neighbouring ranks, shapes and the claimed canonical form stay consistent with the local tensors.',
  [I, H], 'all tensors, positions and histories of restructuring operations',
  'Tests call each operation once on a random tensor, not in combination with canonicalization or each other.',
  [M], [('group_sites, split_sites, vleg2leg, leg2vleg, split, reverse, pad_ranks', M), ('prune, _prune_ltens', M)]),
 ('C05', 'Chaining, embedding and local sums build exactly the specified tensor',
  'Concatenating chains gives the outer product in order; injecting sites at one or several positions puts the given (or identity) tensors exactly there; embedding places the chain at the given slice. The sum of local terms equals the sum of the individually embedded terms for any slices, embedding tensors and mixture of data types, with bond dimension bounded by the sum of those of the embedded terms (for regularly placed terms embedded in identities, all finished and all not yet started terms share one bond index each).',
  [I, C], 'all lists of terms, positions, slices, widths and embedding tensors',
  'Positions, slices and mixed terms are combinatorial; tests check regular cases of one dtype.',
  [M, EX], [('chain, inject, localouter, regular_slices', M), ('local_sum, _local_sum_identity, embed_slice', M), ('block_diag', EX)]),
 ('C06', 'Contractions and traces agree with dense tensor contractions',
  'The dot product over any choice of legs, the partial dot product of chains of different length at any offset, and traces and partial traces with per-site choices of legs equal the contraction of the dense tensors. The remaining legs appear in the documented order, and sites left without legs are merged without changing the value.',
  [I, C], 'all pairs of tensors, leg choices and offsets',
  'Tests contract the default legs of homogeneous operators.',
  [M], [('dot, partialdot, _local_dot', M), ('partialtrace, trace, _prune_ltens', M)]),
 ('C07', 'Inner products, norms and expectation values are those of the dense tensors',
  'Inner product (antilinear in the first argument), norm, norm distance, matrix elements of an operator between states and inner products with product states equal the dense values up to rounding, for any canonical form, rank, data type and scale. Computing them never changes the represented tensors.',
  [I], 'all tensors, ranks, dtypes, scales and canonical forms',
  'The norm uses the claimed canonical form as a shortcut, so its correctness depends on the history of the object.',
  [M, SP], [('inner, norm, normdist, sandwich', M), ('inner_prod_mps', SP)]),
 ('C08', 'The reported canonical form is always true',
  'After any history of operations the canonical form reported by a matrix product array is true: every site reported as left- or right-normalized is, up to rounding. In particular the norm (which relies on it) equals the norm of the represented tensor.',
  [H], 'all histories of canonicalization, local updates, scaling, compression, restructuring and copies',
  'It is an invariant over operation histories; tests check it after one or two operations.',
  [S, M], [('LocalTensors.update, _update, canonical_form bookkeeping', S), ('operations passing a canonical form to their result', M)]),
 ('C09', 'Canonicalization reaches the requested form without changing the tensor',
  'Canonicalizing with any valid request makes (at least) the requested sites left- and right-normalized, whatever the canonical form was before, keeps the represented tensor and never increases ranks. Impossible requests are refused with an error.',
  [I, H], 'all tensors (rank deficient, zero, badly scaled), requests and sequences of requests',
  'Requests have an argument space of pairs of sites or keywords times the initial form times degenerate tensors.',
  [M], [('canonicalize, _lcanonicalize, _rcanonicalize', M)]),
 ('C10', 'Operations only modify their documented target',
  'Operations that are not documented to work in-place leave all operands, related arrays and user-supplied data unchanged bit by bit; in-place operations change only their target even if other arrays were derived from it (or it from them) before, and changes of one array never become visible in another one. Local tensors that are handed out are read-only.',
  [H], 'all histories over pools of related arrays and user arrays',
  'Aliasing shows only when two related objects are used after each other in specific orders.',
  [M, S], [('read-only views, copy on update', S), ('results sharing local tensors with operands', M)]),
 ('C11', 'SVD compression meets its error and rank guarantees',
  'SVD compression yields ranks not above the requested rank, discards at each bond no more than the requested relative error allows and no less than possible, and returns the overlap of the original with the compressed tensor, which equals the squared norm of the latter. The error lies between the best possible one and the documented bound given by the discarded singular values, compression to a sufficient rank is lossless, and the copying variant leaves its operand unchanged.',
  [I, C], 'all tensors, canonical forms, ranks, relative errors, directions and SVD functions',
  'Guarantees are inequalities over all tensors, directions and thresholds; tests check a few random states.',
  [M, EX], [('_compress_svd, _compress_svd_l, _compress_svd_r', M), ('truncated_svd, randomized_svd', EX)]),
 ('C12', 'Variational compression never gets worse and reports the true overlap',
  'Variational compression respects the requested rank, is at least as close to the target as its start vector and as the result with fewer sweeps, is exact when the rank suffices, and returns the overlap of the original with the compressed tensor (which equals the squared norm of the latter). It is determined by its arguments and the given random state, and start vector and (for the copying variant) operand stay unchanged.',
  [I, C], 'all targets, start vectors, sweeps, varied sites and random states',
  'Tests use start vectors and targets from one factory; monotonicity over sweeps and arbitrary start vectors are not covered.',
  [M], [('_compression_var, _adapt_to, _adapt_to_add_l, _adapt_to_add_r, _adapt_to_new_lten', M)]),
 ('C13', 'Singular values are those of every bipartition of the tensor',
  'Iterating over singular values yields, for every cut of the chain from left to right, the singular values of the corresponding matricization of the represented tensor. Stopping early or iterating again is harmless: the represented tensor never changes.',
  [I, H], 'all tensors, canonical forms and partial iterations',
  'Tests compare normalized random states after complete iteration.',
  [M], [('singularvals', M)]),
 ('C14', 'Saving and loading reproduces the array bit by bit',
  'Saving a matrix product array to a file or to a group in an open file and loading it returns the same local tensors bit by bit with the same data types and canonical form, for any number of sites. Other content of the file and the saved array are unaffected, overwriting replaces the old content, and the loaded array does not depend on the file and has the class it is loaded as.',
  [I, H], 'all arrays, numbers of sites, dtypes and orders of several saves and loads',
  'The stored order of ten and more sites, other dtypes and repeated use of one file are not sampled by the single test.',
  [M], [('dump, load', M)]),
 ('C15', 'Factory functions build exactly what their arguments request',
  'Every factory function returns the requested number of sites, physical dimensions and ranks (limited to the largest sensible ranks unless forced), and its result has the promised property: unit norm, hermiticity, positivity and unit trace, identity, diagonal, zero, sum of local hermitian terms. Random results are determined by the given random state alone, and their entries have the documented distribution.',
  [I, C], 'all numbers of sites, leg dimensions given in any form, ranks, options and seeds',
  'Tests use one seed and homogeneous dimensions.',
  [F], [('_generate, random_mpa, random_mps, random_mpo, random_mpdo, random_local_ham', F), ('eye, zero, diagonal_mpa', F)]),
 ('C16', 'Eigenvalue search returns a consistent eigenpair estimate',
  'The variational eigenvalue search returns a normalized vector of at most the allowed rank and a value equal to its expectation value, which lies within the spectrum and does not get worse from one local step to the next; with sufficient rank it finds the exact extreme eigenpair. Searching with a sum of operators given term by term (operators or pure states standing for projectors) agrees with searching with the summed operator, and operators and start vector stay unchanged.',
  [I, C], 'all hermitian operators, sums, start vectors, varied sites, sweeps and local solvers',
  'Convergence and consistency are relations over all operators; tests use a few random ones with fixed options.',
  [L], [('eig, _eig_minimize_locally, _eig_local_op', L), ('eig_sum and its environments', L)]),
 ('C17', 'Compressed sums of product tensors and truncated SVDs keep their guarantees',
  'Summing product tensors with compression on the fly gives the exact weighted sum when the rank suffices, never exceeds the rank, and otherwise has the error of sequential truncation. The truncated and randomized SVDs return orthonormal singular vectors and ordered non-negative singular values which are exact when enough components are requested and determined by the given random state.',
  [I, C], 'all lists of summands, weights, ranks, SVD functions and matrices',
  'Rank-deficient, mixed and wide/tall inputs with all options form an unbounded space.',
  [SP, EX], [('sumup, _local_add_sparse', SP), ('truncated_svd, randomized_svd, approx_range_finder', EX)]),
 ('C18', 'State conversions and reduced states agree with the dense density matrix',
  'Conversions between pure, locally purified and operator representations preserve the density matrix, also when norms, phases and local dimensions are arbitrary. Reduced states for any list of supports (in any order, overlapping, any way to specify them) equal the partial traces of the dense density matrix, independent of how the results are consumed.',
  [I, H], 'all states, supports and orders of consumption',
  'Reductions are lazily evaluated with caches shared between supports; tests use regular blocks.',
  [PS], [('reductions_mpo, reductions_pmps, get_remainder cache', PS), ('pmps_to_mpo, mps_to_pmps, mps_to_mpo, pmps_reduction', PS)]),
 ('C19', 'Local measurements are valid and invert exactly',
  'The predefined and constructed local measurements of any dimension have positive elements summing to the identity with the documented outcomes and order. Their probability map implements the Born rule, the information-completeness report is correct, and linear inversion recovers every state when the measurement is informationally complete.',
  [I], 'all dimensions, vector families and convex combinations',
  'Tests check a few dimensions of the predefined measurements.',
  [LP], [('POVM, from_vectors, concat, pauli_parts, pauli_povm', LP)]),
 ('C20', 'Outcome probabilities follow the Born rule in every representation',
  'For any matrix product measurement and state, outcome probabilities equal the trace of element times density matrix, and all evaluation methods and state formats agree. Probabilities of blocks, embedded or repeated measurements refer to exactly the intended sites, sum to one and are assigned to the documented outcomes.',
  [I, C], 'all measurements (inhomogeneous, correlated), states, formats and block positions',
  'Tests use homogeneous Pauli-type measurements.',
  [PO], [('pmf, pmf_as_array and its implementations, block_pmfs_as_array', PO), ('embed, block, repeat, from_local_povm, pauli_mpps', PO)]),
 ('C21', 'Samples follow the outcome distribution and pack without loss',
  'Sampled outcomes follow the exact outcome distribution for every sampling method, group size and state format; outcomes of probability zero never occur, and samples are determined by the random generator. Packing and unpacking samples is lossless and order preserving, and estimated distributions are the relative frequencies.',
  [I, C], 'all measurements, states, methods, group sizes, seeds and sample sets',
  'Distributional correctness over all group sizes and inhomogeneous chains cannot be settled by a single test with loose statistics.',
  [PO], [('_sample_cond, _sample_direct, sample', PO), ('pack_samples, unpack_samples, est_pmf', PO)]),
 ('C22', 'Estimators of outcome functions equal their defining sample statistics',
  'Expectation values and variances of functions of outcomes, and their estimates from (weighted) samples, equal the defining moments or sample statistics. Estimating probabilities or functions of one measurement from samples of others uses exactly the elements which are multiples of each other, with the right factors and sample counts, reports what cannot be estimated, and reproduces the exact value in expectation.',
  [I, C], 'all pairs and lists of measurements, functions, coefficients, weights and samples',
  'Matching is combinatorial in the outcome structure; tests use Pauli measurements with loose statistical tolerances.',
  [PO], [('match_elems, est_pmf_from, est_pmf_from_mpps', PO), ('lfun, est_lfun, lfun_from, est_lfun_from', PO)]),
 ('C23', 'Array utilities implement their definitions',
  'Switching between global and local leg order, partial traces, Kronecker products, block-diagonal sums, general matrix products and projections of nearly valid probabilities equal their index-by-index definitions for arrays of any shape. Projections change nothing beyond the tolerance and refuse what violates it.',
  [I], 'all shapes, axes, skips and tolerances',
  'Index bookkeeping is combinatorial in the number and order of axes.',
  [AT, EX, PM], [('global_to_local, local_to_global', AT), ('partial_trace, mkron, block_diag, matdot', EX), ('project_nonneg, project_pmf', PM)]),
 ('C24', 'Model Hamiltonians equal their definition',
  'The cyclic XY model terms, sparse and matrix product Hamiltonians built from two-site terms equal the sum of the terms on neighbouring sites including the boundary term, for any number of sites and any (inhomogeneous, asymmetric) terms. The closed-form ground state energy equals the smallest eigenvalue of that Hamiltonian.',
  [I], 'all chain lengths, asymmetries and local terms',
  'Tests use short chains with symmetric terms.',
  [PH], [('cXY_local_terms, cXY_E0, sparse_cH, mpo_cH', PH)]),
 ('C25', 'Long chains stay efficient and accurate',
  'For chains of tens to thousands of sites, where no dense tensor exists, arithmetic, contractions, canonicalization, compression and reductions agree with values computed by transfer matrices. The bond dimensions of results never exceed the documented growth (sums add them, products multiply them, everything else keeps them), so that computations scale with the chain length.',
  [I, C], 'all chain lengths, bond dimensions and operations',
  'The tests stop at a few sites because they compare with dense tensors.',
  [M, PS, F], [('all operations working site by site', M), ('reductions', PS), ('random states', F)]),
 ('C26', 'Invalid requests are refused and leave everything unchanged',
  'Requests that cannot be fulfilled (sites or legs that do not match, positions out of range, contradictory or unknown options, invalid ranks, errors or start vectors, local tensors of inconsistent shape) are refused with an error and never answered with a wrong result. A refused request leaves the operands and the target as they were.',
  [I, C], 'all invalid arguments of the public operations',
  'Invalid inputs are an open-ended space; tests cover a handful of them.',
  [M, S, L, PO], [('shape and argument validation', M), ('LocalTensors.update validation', S), ('argument validation', L)]),
]
CLAIMED = os.environ.get('CLAIMED', 'all')
NOTE = {}


def main():
    have = [p for p in PROPS if os.path.exists(os.path.join(
        HERE, 'pbt', 'props', p[0].lower() + '.py'))]
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for id_, title, st, over, text, why, files, mech in have:
            assert len(title) <= 80, (id_, len(title))
            f.write(json.dumps(dict(
                id=id_, title=title, statement=st,
                quantifier=dict(over=over, text=text), why_tests_cant=why,
                anchors=dict(files=files, mechanism=[
                    dict(name=n, where=w) for n, w in mech]))) + '\n')
    checks = []
    for p in have:
        hist = 'stateful/model-based' if H in p[3] or P in p[3] else 'randomized structured'
        checks.append(dict(
            property=p[0], quick_cmd='bash run.sh %s quick' % p[0],
            thorough_cmd='bash run.sh %s thorough' % p[0],
            technique='property-based testing: %s generation against an '
                      'independent dense reference, with shrinking' % hist,
            level='exploration',
            level_note='Seeded generated-input search with shrinking; holds on '
            'all cases explored (counts in the evidence file), not a proof. '
            'Trusts numpy/scipy linear algebra in the oracle; sizes bounded as '
            'stated in the rule of the evidence file.'))
    man = dict(version=1, setup_cmd='bash setup.sh', checks=checks,
               not_applicable=[],
               notes='No hooks in /repo. Checks import mpnum from /repo\'s '
               'working tree with /opt/venv/bin/python (pure Python, nothing to '
               'build). See DESIGN.md.')
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')


main()
