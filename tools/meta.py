#!/usr/bin/env python3
""" The single source of properties.jsonl and MANIFEST.json:  python3 tools/meta.py """
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = 'dsrg_generator/'

PROPS = []


def prop(pid, title, statement, over, text, why, files, mech, technique, note, observe=()):
    PROPS.append((dict(id=pid, title=title, statement=statement, quantifier={'over': over, 'text': text},
                       why_tests_cant=why,
                       anchors={'files': [f[1:] if f[0] == '/' else D + f for f in files],
                                'mechanism': [{'name': n, 'where': w} for n, w in mech],
                                'observe_at': list(observe), 'hook_needed': None}), technique, note))


prop('C01', 'Contracting operators yields exactly their product (generalized Wick theorem)',
     "For any list of normal-ordered second-quantized operators, the signed contributions (densities and a remaining "
     "normal-ordered operator) produced by the general contraction procedure sum to the operator product: no "
     "contribution is missing, duplicated or has a wrong sign, pairing, space restriction or leftover operator. With "
     "limits on cumulant rank and on the number of open operators, exactly the contributions within those limits are "
     "returned, with hole densities either kept or replaced by delta minus density.",
     ['inputs', 'configurations'],
     "every list of operators, every assignment of orbital spaces, every truncation option",
     "The tests compare a handful of operator lists with stored counts or terms; the space of shapes x spaces x "
     "options is combinatorial and a lost or mis-signed contribution in an untested shape changes equations silently.",
     ['sqop_contraction.py'],
     [('elementary contractions, compatibility and backtracking', D + 'sqop_contraction.py'),
      ('sign from base ordering', D + 'sqop_contraction.py:process_composite_contractions')],
     "explicit-state enumeration of all contraction patterns in an independent model, replayed against the real code, "
     "plus exact Fock-space products for all orbital assignments",
     "Exhaustive over the stated shapes, space words, label orders and options. The reference enumerator is itself "
     "bound to exact Fock-space matrices. Trusted: the model of normal order, CPython/PyPy arithmetic.",
     ['compute_operator_contractions'])

prop('C02', 'Commutator mode keeps exactly the connected, non-cancelling contributions',
     "When only contributions to commutators are requested, the contraction procedure returns exactly those "
     "contributions of the full product that connect all operators and contain at least one pairwise contraction, "
     "with the same signs and multiplicities, for every number of operators and every cumulant, open-index and "
     "hole-expansion option. Everything dropped cancels from the corresponding nested commutator.",
     ['inputs', 'configurations'],
     "every list of two, three or four operators, every space assignment, every truncation option",
     "Tests pin counts for a few operator lists; connectivity is decided by a different algorithm than the full "
     "product, and its agreement on unusual shapes, spaces or open-index windows is untested.",
     ['sqop_contraction.py'],
     [('category backtracking over macro operators', D + 'sqop_contraction.py:contracted_operator_backtrack_macro'),
      ('per-category expansion', D + 'sqop_contraction.py:process_composite_categorized')],
     "explicit-state enumeration of all connected contraction patterns, replayed against the real code",
     "Exhaustive within the listed alphabets. One known finding for four and more operators (see "
     "known_findings.jsonl): there the result must equal the reference or exactly the recorded deviation.",
     ['compute_operator_contractions(for_commutator=True)'])

prop('C03', 'Commutators of operator terms are algebraically exact',
     "The commutator of two operator terms equals left*right - right*left as operators on any reference state, when "
     "no truncation is requested, and with an open-index window it equals exactly the part of that result with the "
     "requested operator ranks. It is bilinear in the scale factors, antisymmetric, obeys the Jacobi identity, and is "
     "the same whether or not only connected contributions are generated.",
     ['inputs', 'configurations'],
     "every pair of terms, every reference state, every open-index window",
     "Tests compare a few commutators with stored terms. They cannot cover all ranks, spaces, tensors and options, "
     "nor state the algebraic laws.",
     ['phys_op_contraction.py', 'Term.py', 'sqop_contraction.py'],
     [('contract both orders, canonicalize, combine', D + 'phys_op_contraction.py:single_commutator'),
      ('bilinear sum', D + 'phys_op_contraction.py:linear_commutator')],
     "exhaustive enumeration of pairs of terms; exact Fock-space commutator matrices over a finite field as oracle",
     "All pairs of the term alphabet; equality of operators is decided by polynomial identity testing over GF(2^31-1) "
     "with generic tensors and an exact matrix representation.",
     ['single_commutator', 'linear_commutator', 'contract_terms'])

prop('C04', 'Simplification and canonicalization never change the value of a term',
     "Simplifying a term (removing deltas, restricting density indices to the spaces where densities are nonzero, "
     "dropping all-active amplitudes) and bringing it to canonical form, with any combination of the options, return "
     "a term with the same value for every tensor content that obeys the declared symmetries. A term is turned into "
     "the empty term only if it is identically zero. (Terms as contraction produces them: "
     "deltas and densities do not share indices and are not identically zero; full canonicalization is not offered for "
     "terms with diagonal indices.)",
     ['inputs', 'configurations'],
     "every term: every choice of tensors, space labels, index connections and option combination",
     "Tests check a few dozen terms by their printed form; sign errors or over-eager index merging show only for "
     "particular connections and label combinations.",
     ['Term.py', 'Tensor.py', 'Indices.py', 'IndicesPair.py'],
     [('delta removal and cumulant downgrade', D + 'Term.py:simplify'),
      ('SymPy tensor canonicalization with bsgs', D + 'Term.py:canonicalize_sympy')],
     "exhaustive enumeration of bounded terms; value compared in an exact finite-field model of the tensors",
     "All connections and space words of the listed tensor shapes; equality decided over GF(2^31-1) with generic "
     "symmetric tensors (error probability < 1e-8 per comparison).",
     ['Term.simplify', 'Term.canonicalize', 'Term.canonicalize_simple', 'Term.canonicalize_sympy'])

prop('C05', 'Equivalent terms have one canonical form',
     "Two terms related by renaming dummy indices, reordering tensors, permuting antisymmetric indices (with sign), "
     "or exchanging upper and lower indices of Hermitian tensors canonicalize to literally the same tensors and "
     "operator, with coefficients related by exactly the tracked sign; if the relations force the term to vanish, the "
     "canonical form is the empty term. Canonicalization is idempotent.",
     ['inputs', 'histories'],
     "every term and every finite sequence of value-preserving rewrites of it",
     "Tests compare a few pairs of equivalent terms. If one orbit member maps to a different form, like terms "
     "do not merge or cancel; orbits have hundreds of members per term.",
     ['Term.py', 'IndicesPair.py', 'Tensor.py', 'SQOperator.py'],
     [('minimal relabeling then SymPy canonicalize', D + 'Term.py:canonicalize_sympy'),
      ('declared symmetry groups', D + 'IndicesPair.py:asym_bsgs, sym_bsgs')],
     "explicit-state search of the full rewrite orbit of each seed term, with the real canonicalization run on every "
     "state",
     "Orbits are explored completely (or breadth-first up to a stated bound) for the listed seed terms.",
     ['Term.canonicalize'])

prop('C06', 'Combining like terms preserves the sum and merges completely',
     "Combining a list of canonical terms returns a list with the same sum in which no two terms are alike, no term "
     "is zero, the order is sorted, and the result does not depend on the order of the input. The input terms are "
     "left unchanged.",
     ['inputs', 'histories'],
     "every multiset and order of terms",
     "Tests combine a few lists; order dependence, lost merges and side effects on inputs need all orders and "
     "multiplicities.",
     ['phys_op_contraction.py', 'Term.py'],
     [('grouping by printed key', D + 'phys_op_contraction.py:combine_terms')],
     "exhaustive enumeration of multisets and permutations of a term alphabet against a dictionary model",
     "All lists up to the stated length over the alphabet, all permutations.",
     ['combine_terms'])

prop('C07', 'Parallel and batched execution give the serial result',
     "Computing contractions, commutators or nested commutators with any number of worker processes, any batch and "
     "chunk size, and any completion order of the workers gives exactly the list of terms that the serial "
     "computation gives. Nothing is lost, duplicated or reordered at batch boundaries.",
     ['schedules', 'configurations'],
     "every completion order of the worker tasks, every process count and batch boundary",
     "Tests use one process or one uncontrolled schedule and results that fit into one batch.",
     ['phys_op_contraction.py', 'sqop_contraction.py', 'helper/multiprocess_helper.py'],
     [('unordered process pool, batches', D + 'phys_op_contraction.py:canonicalize_contractions_batch, contract_terms'),
      ('pool in the contraction generators', D + 'sqop_contraction.py:compute_operator_contractions_general')],
     "stateless exploration: a controlled stand-in pool delivers every completion order of chunks; all batch sizes",
     "All delivery orders up to the stated number of chunks; tasks and results pass through pickle as with real "
     "processes; one run with the real pool binds the stand-in to it.",
     ['contract_terms(n_process)', 'compute_operator_contractions(n_process, batch_size)'])

prop('C08', 'Index permutations carry the right sign and multiplicity',
     "Sorting antisymmetric indices returns the sorted sequence and the parity of the permutation; the number of "
     "multiset permutations of a partition and the enumerated permutations with signs are exactly the distinct "
     "interleavings of its blocks, each once, with its parity, for each kind of index (spin-orbital, "
     "spin-integrated keeping the spin pattern, spin-adapted without permutations).",
     ['inputs'],
     "every index sequence and every ordered partition of it",
     "Tests check few sequences; a parity error for one permutation pattern flips signs of equations.",
     ['Indices.py', 'SQOperator.py', 'IndicesPair.py'],
     [('merge sort inversion count', D + 'Indices.py:sort_and_count_inversions'),
      ('multiset permutations', D + 'Indices.py:ambit_permute_format, n_multiset_permutation')],
     "exhaustive enumeration of all permutations and ordered partitions up to a size, against direct definitions",
     "All sequences up to the stated length over the stated labels.",
     ['Indices', 'SecondQuantizedOperator'])

prop('C09', 'Declared tensor symmetry groups are exactly the physical ones',
     "The permutation group handed to the canonicalizer for each kind of tensor or operator contains exactly the "
     "signed permutations that leave it invariant: independent antisymmetric permutations of upper and lower indices, "
     "or simultaneous column permutations for spin-adapted tensors, together with the upper/lower exchange if and "
     "only if Hermitian symmetry is requested.",
     ['inputs', 'configurations'],
     "every rank, index kind and Hermiticity option",
     "Tests do not look at the groups; too large a group merges different terms, too small a group leaves like terms "
     "unmerged.",
     ['IndicesPair.py', 'SQOperator.py', 'Tensor.py'],
     [('base and strong generating sets', D + 'IndicesPair.py:asym_bsgs, sym_bsgs')],
     "explicit-state closure of the generated group compared with the directly enumerated symmetry group",
     "All ranks up to the stated bound, every group element.",
     ['base_strong_generating_set'])

prop('C10', 'Comparison, equality and hashing of all objects are consistent',
     "Indices, index lists, index pairs, tensors, operators, terms and cost/space counters each have a strict total "
     "(cost counters: weak) order compatible with equality, mutually consistent comparison operators, and equal hashes "
     "for equal objects; sorting any list of them gives the same result whatever its initial order. Comparing objects "
     "of incompatible kinds raises a type error.",
     ['inputs'],
     "every pair and triple of objects",
     "Tests compare single pairs; transitivity and order independence quantify over triples and lists.",
     ['Index.py', 'Indices.py', 'IndicesPair.py', 'Tensor.py', 'SQOperator.py', 'Term.py', 'mo_space.py',
      '/SpaceCounter.py'],
     [('comparison tuples', D + 'Tensor.py:comparison_tuple, Term.py:comparison_tuple')],
     "exhaustive enumeration of all pairs and triples over object alphabets",
     "All pairs/triples of the alphabets.",
     ['__eq__', '__lt__', '__hash__'])

prop('C11', 'Spin integration preserves the value of a term',
     "The spin-integrated terms generated from a spin-orbital term add up, summed over both spins, to the original "
     "term for every spin-conserving tensor content, with every admissible spin assignment generated exactly once "
     "and every generated term spin conserving.",
     ['inputs'],
     "every spin-orbital term with particle-conserving tensors",
     "Tests check counts or printed forms for a few terms.",
     ['Term.py', 'Indices.py', 'IndicesPair.py', 'Tensor.py', 'SQOperator.py'],
     [('product of per-tensor spin cases, mismatches discarded', D + 'Term.py:generate_spin_cases_naive')],
     "exhaustive enumeration of bounded terms; value compared in an exact finite-field spin-orbital model",
     "All terms of the listed shapes; every spin assignment.",
     ['Term.generate_spin_cases_naive'])

prop('C12', 'Singlet adaptation preserves the value of a spin-integrated term',
     "For singlet (spin-free) tensors the spin-adapted terms generated from a spin-integrated term add up to that "
     "term's value, with the antisymmetric same-spin blocks expressed by the spin-free opposite-spin block, for both "
     "choices of the majority spin. (Fully contracted terms, one-body operators, and two-body operators of opposite "
     "spins, where the block of coefficients of that spin case is meant.)",
     ['inputs', 'configurations'],
     "every spin-integrated term and both majority-spin choices",
     "Tests check a few terms by printed form.",
     ['Term.py', 'IndicesPair.py'],
     [('same-spin antisymmetrization', D + 'IndicesPair.py:generate_singlet_adaptation')],
     "exhaustive enumeration of bounded terms; value compared in an exact finite-field spin model",
     "All terms of the listed shapes, tensors up to three-body.",
     ['Term.generate_singlet_adaptation'])

prop('C13', 'Printed tensor-contraction statements compute the terms they stand for',
     "Executing the generated ambit statements for a list of terms accumulates, block by block, exactly the "
     "coefficient tensors whose operators are the sum of the terms: coefficients, index order, permutations with "
     "signs, use and reset of temporaries and the storage convention of amplitudes are right. This holds for any list "
     "of canonical terms in any order.",
     ['inputs', 'programs'],
     "every list of canonical terms and every combination of printing options documented for a list",
     "Tests compare a few printed strings; whether the statements compute the right tensors is never executed.",
     ['Term.py', 'Tensor.py', 'SQOperator.py', 'phys_op_contraction.py'],
     [('permutation and temp statements', D + 'Term.py:ambit'),
      ('grouping by block and permutation', D + 'phys_op_contraction.py:categorize_contractions, print_terms_ambit')],
     "exhaustive enumeration of terms/lists; every generated program is executed by an interpreter over a finite "
     "field and compared with the operator meaning of the terms",
     "All listed terms and lists; interpreter of the statement language is part of the checker.",
     ['Term.ambit', 'print_terms_ambit'])

prop('C14', 'Generated source files form a consistent, correct program',
     "The files written for a list of terms form a program in which every function is declared, defined and called "
     "with matching arguments and every variable is declared before use, and running the main function sets the "
     "target tensors to factor times the sum of the terms, plus its Hermitian conjugate if requested, in either "
     "intermediate-storage mode.",
     ['programs', 'configurations'],
     "every list of terms, every value of the factor and every option combination",
     "No test writes or reads the files.",
     ['write_forte_functions.py', 'phys_op_contraction.py', 'Term.py', 'helper/file_utils.py'],
     [('main and block functions', D + 'write_forte_functions.py')],
     "exhaustive enumeration of term lists and options; every generated program is parsed, type-checked and executed "
     "over a finite field",
     "All listed programs. Files go to a scratch directory.",
     ['save_terms_ambit_functions', 'save_direct_t3'])

prop('C15', 'LaTeX output denotes the term it was printed from',
     "Reading the LaTeX form of a term back (coefficient, permutation operators expanded over the printed blocks, "
     "tensors, operator) gives a value equal to the term, for every option combination, and the printed list "
     "environments contain every term of a list exactly once.",
     ['inputs', 'programs'],
     "every term and list of terms, every print option",
     "Tests compare few strings; the relation between the coefficient and the printed permutation operators is not "
     "checked in general.",
     ['Term.py', 'SQOperator.py', 'Indices.py', 'phys_op_contraction.py'],
     [('division by the number of permutations', D + 'Term.py:latex')],
     "exhaustive enumeration; every string is parsed back and its meaning compared in a finite-field model",
     "All listed terms and options.",
     ['Term.latex', 'print_terms_latex'])

prop('C16', 'Operator builders and space expansions mean what they are named',
     "The Hamiltonian, cluster, Fock, Dyall and Fink operators have the coefficients and index ranges of their "
     "definitions; expanding composite indices partitions a term into elementary blocks that add up to it; the core/"
     "virtual-limited, excitation and one-body-diagonal restrictions keep exactly the blocks they promise, each once.",
     ['inputs', 'configurations'],
     "every rank, label choice, start number, limit and single-/multi-reference option",
     "Tests touch single ranks and options.",
     ['Term.py', 'mo_space.py', 'SQOperator.py'],
     [('block expansion', D + 'Term.py:make_ddca, expand_composite_indices, make_excitation, make_one_body_diagonal'),
      ('operator builders', D + 'Term.py:hamiltonian_operator, cluster_operator')],
     "exhaustive enumeration of builders, terms and options; block-wise value comparison in a finite-field model",
     "All listed ranks, labels, limits.",
     ['hamiltonian_operator', 'cluster_operator', 'Term.make_ddca', 'Term.make_excitation'])

prop('C17', 'Contraction-cost analysis enumerates all paths and finds the optimum',
     "The enumerated contraction paths of a term are exactly all pairwise contraction orders, each with the largest "
     "computational and storage cost over its steps, and the reported optimal costs are the minima over all orders "
     "with a path that attains them.",
     ['inputs', 'schedules'],
     "every term, every order of pairwise contractions",
     "Tests check one or two terms.",
     ['Term.py', 'mo_space.py'],
     [('recursive path enumeration', D + 'Term.py:contraction_paths, optimal_contraction_cost'),
      ('cost order', D + 'mo_space.py:MOSpaceCounter')],
     "explicit-state exploration of all contraction orders in an independent model compared with the reported paths",
     "All terms of the listed shapes, all orders.",
     ['Term.contraction_paths', 'Term.optimal_contraction_cost'])

prop('C18', 'Nested commutators and BCH expansions agree with their definition',
     "Each nested commutator term of the coupled-cluster and unitary (DSRG) Baker-Campbell-Hausdorff expansion "
     "equals the nested commutator of Hamiltonian and cluster operators divided by the factorial of the level, "
     "whether computed directly or recursively, with or without connected-only selection, in single- and "
     "multireference form. Recursively defined nested commutators of arbitrary terms equal their definition.",
     ['inputs', 'configurations'],
     "every nesting level, cluster ranks, reference type, unitary option and open-index window",
     "Tests cover few levels and compare with stored numbers or one another.",
     ['phys_op_contraction.py', 'Term.py', 'sqop_contraction.py'],
     [('symbolic expansion with SymPy', D + 'phys_op_contraction.py:nested_commutator_cc'),
      ('recursive commutators', D + 'phys_op_contraction.py:bch_cc_rsc, recursive_single_commutator')],
     "exhaustive enumeration of levels, ranks and options; exact Fock-space nested commutator matrices as oracle",
     "All configurations listed; the connected-only selection at three and more amplitudes inherits the C02 finding.",
     ['nested_commutator_cc', 'bch_cc_rsc', 'recursive_single_commutator'])

prop('C19', 'Amplitude gradients are exact derivatives',
     "The derivative of a fully contracted term with respect to the amplitudes, returned as operator terms, pairs "
     "with every amplitude variation to give the exact directional derivative of the term; the operators create in "
     "the lower and annihilate in the upper indices of the amplitude.",
     ['inputs'],
     "every fully contracted term, every number and rank of amplitudes",
     "Not tested beyond single examples.",
     ['Term.py'],
     [('product rule', D + 'Term.py:gradient_t')],
     "exhaustive enumeration of closed terms; directional derivative computed exactly in a finite-field model",
     "All listed closed terms.",
     ['Term.gradient_t'])

prop('C20', 'Ill-formed objects are rejected, well-formed ones accepted',
     "An index, index list, tensor, operator or term is created if and only if it is well formed: valid space label "
     "and number, no repeated index in one list, spin-orbital indices without spin labels, spin-conserving tensors of "
     "the right rank, amplitudes that do not mix holes and particles on one side, and terms in which every "
     "non-diagonal index occurs exactly twice with one common index kind. Rejection is by a type or value error.",
     ['inputs'],
     "every combination of constructor arguments",
     "Tests try single bad inputs.",
     ['Index.py', 'Indices.py', 'Tensor.py', 'SQOperator.py', 'Term.py', 'IndicesPair.py'],
     [('constructor checks', D + 'Index.py, Indices.py, Tensor.py, Term.py')],
     "exhaustive enumeration of bounded constructor arguments against an independent well-formedness predicate",
     "All words up to the stated length over the stated alphabet.",
     ['Index', 'Indices', 'Tensor', 'Term'])

prop('C21', 'Results do not depend on the history of calls on shared objects',
     "Any sequence of public operations on shared operators, tensors and terms (contraction, commutators, printing, "
     "spin and space transformations, comparison, iteration, also while another iteration is in progress) gives each "
     "operation the same result as on fresh objects, and leaves shared operators and tensors unchanged; only "
     "simplification and canonicalization change the term they are called on, and then without changing its value.",
     ['histories', 'schedules'],
     "every sequence of operations up to a depth, every interleaving of two iterations",
     "Tests build fresh objects for each call.",
     ['Term.py', 'Indices.py', 'phys_op_contraction.py', 'sqop_contraction.py', 'mo_space.py'],
     [('in-place simplification', D + 'Term.py:simplify'), ('iteration', D + 'Indices.py:__iter__'),
      ('space tables', D + 'mo_space.py')],
     "exhaustive exploration of all operation sequences up to a depth on the real objects, each result compared with "
     "the result on fresh objects",
     "All sequences over the operation alphabet up to the stated depth.",
     ['public methods of Term, Tensor, Indices'])

prop('C22', 'Combinatorial helpers and space tables are exact',
     "Integer partitions and separations are enumerated completely and without repetition; the composite-space tables "
     "are closed and consistent (each label stands for the union of its elementary spaces, alpha and beta alike), and "
     "looking up the label of a set of spaces inverts the table.",
     ['inputs'],
     "every integer and every space label",
     "Only a few values are tested.",
     ['helper/integer_partition.py', 'mo_space.py'],
     [('ZS1 algorithm', D + 'helper/integer_partition.py'), ('space tables', D + 'mo_space.py')],
     "exhaustive enumeration against recursive definitions",
     "All integers up to the bound, all labels and label sets.",
     ['integer_partition', 'integer_separation', 'find_space_label'])

prop('C23', 'Scoped directory changes always restore the caller\'s directory',
     "Leaving a scoped directory change restores the working directory it was entered from, on every exit path "
     "(normal, exception, nested scopes, directory pre-existing or removed inside); a scope that cannot be entered "
     "reports an error and leaves the working directory alone.",
     ['histories', 'fault_sequences'],
     "every sequence of scope operations and faults up to a depth",
     "There are no tests.",
     ['helper/file_utils.py'],
     [('context manager', D + 'helper/file_utils.py:ChangeDir')],
     "exhaustive exploration of all operation/fault sequences up to a depth in a scratch directory against a state "
     "model",
     "All sequences up to the stated depth.",
     ['ChangeDir'])


prop('C24', 'Queries and conversions of index lists, tensors and operators are truthful',
     "For every index list, index pair, tensor and operator the answers about it agree with their definition in terms "
     "of its single indices: size, items, membership, overlap, concatenation, number of indices in given spaces, alpha "
     "and beta parts, whether two lists are permutations of each other and by how many inversions, rank, diagonal "
     "indices, particle and spin conservation, possible excitation, all-active amplitudes, and the largest space in "
     "which a delta, density or hole density can be nonzero. Clones, adjoints, spin cases and tensors with new or "
     "sorted indices keep everything else (kind, name, priority).",
     ['inputs'],
     "every index list over all space labels and both spins, every pair of lists, every tensor and operator kind",
     "The tests query a few objects; wrong answers hide behind particular labels, spins, ranks or kinds, and the "
     "algorithms above trust these answers.",
     ['Index.py', 'Indices.py', 'IndicesPair.py', 'Tensor.py', 'SQOperator.py'],
     [('queries of index lists', D + 'Indices.py'), ('pairs', D + 'IndicesPair.py'),
      ('tensors and operators', D + 'Tensor.py, ' + D + 'SQOperator.py')],
     "exhaustive enumeration of all objects up to the stated size, every query compared with a reference model of "
     "plain label sequences",
     "All lists up to the stated length over all labels, all pairs of lists over the stated alphabets.",
     ['Indices', 'IndicesPair', 'Tensor', 'SecondQuantizedOperator'])


def main():
    done = {f[:3].upper() for f in os.listdir(os.path.join(HERE, 'checks')) if f[0] == 'c' and f.endswith('.py')}
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p, _, _ in PROPS:
            assert len(p['title']) <= 80, p['title']
            f.write(json.dumps(p) + '\n')
    man = {
        'version': 1,
        'setup_cmd': '/opt/venv/bin/python -B -c "import sympy"',
        'checks': [{'property': p['id'], 'quick_cmd': f"./run {p['id']} quick",
                    'thorough_cmd': f"./run {p['id']} thorough", 'evidence_file': f"evidence/{p['id']}.json",
                    'technique': 'model checking: ' + t, 'level': 'model_checking', 'level_note': n}
                   for p, t, n in PROPS if p['id'] in done],
        'not_applicable': [{'property': p['id'], 'reason': 'check under construction'}
                           for p, t, n in PROPS if p['id'] not in done],
        'notes': 'Pure-Python system under test: checks import /repo directly, nothing is built. '
                 'No hooks are needed in /repo. See DESIGN.md.',
    }
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')


main()
