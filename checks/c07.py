""" C07: parallel and batched execution give the serial result. """
from collections import Counter
from fractions import Fraction
from itertools import product

import _path  # noqa
from mc import fakepool     # before the package: it takes the place of multiprocessing.Pool
from mc import harness, conv, alg
from mc.harness import Result
import dsrg_generator.phys_op_contraction as phys
import dsrg_generator.sqop_contraction as sqc
from dsrg_generator.Term import Term, hamiltonian_operator, cluster_operator

PID = 'C07'
LEVEL = 'model_checking'
RULE = ("stateless exploration of completion orders: a stand-in process pool (pickled tasks and results, Pool's own "
        "chunking) delivers the chunks of every pool call in every order up to the bound; all process counts and batch "
        "sizes listed; contraction streams that cross the batch boundary in every listed way; one run on the real "
        "pool. states = schedules, transitions = chunks delivered, traces = results compared with the serial one")
ASSUMPTIONS = ["worker tasks do not communicate (checked: each task is run in isolation from its pickle)",
               "order of raw contractions is not promised, only their multiset; lists of terms are compared exactly"]

# name -> list of operator terms (left to right)
H, T = hamiltonian_operator, cluster_operator
SR = dict(hole_label='c', particle_label='v')
PRODUCTS = {
    'H1 T1': lambda: [H(1), T(1)], 'T1 H1': lambda: [T(1), H(1)], 'H1 T1 sr': lambda: [H(1), T(1, **SR)],
    'H2 T1': lambda: [H(2), T(1)], 'H1 T2': lambda: [H(1), T(2)], 'T2 H1': lambda: [T(2), H(1)],
    'H2 T2 sr': lambda: [H(2), T(2, **SR)], 'H1 T1 T1 sr': lambda: [H(1), T(1, **SR), T(1, start=4, **SR)],
    'H2 X1': lambda: [H(2), T(1, excitation=False)], 'H2 T2': lambda: [H(2), T(2)],
    'H1 T1 X1': lambda: [H(1), T(1), T(1, start=4, excitation=False)],
    'H2 T1 T1': lambda: [H(2), T(1), T(1, start=4)],
}
WINDOWS = [(0, 6), (0, 0), (2, 2), (4, 4), (0, 2), (2, 6)]


def cases(tier):
    deep = tier == 'thorough'
    out = []
    bound = 6 if deep else 5
    for name in PRODUCTS:
        big = name in ('H2 T2', 'H2 T1 T1')
        for com, win in product((False, True), WINDOWS if deep else [(0, 0)] if big else WINDOWS[:4]):
            for npr in ((2, 3, 4, 8, 20) if deep else (2, 3) if big else (2, 3, 8)):
                out.append({'kind': 'contract', 'name': name, 'com': com, 'win': win, 'n': npr, 'bound': bound,
                            'wide': 12 if deep else 2 if big else 4, 'herm': True})
                if (deep or npr == 3) and not (big and com):
                    out.append(dict(out[-1], herm=False))
    for name in PRODUCTS if deep else ['H1 T1', 'T1 H1', 'H2 T1', 'H1 T2', 'H2 X1', 'H1 T1 T1 sr']:
        for com, hole, win in product((False, True), (False, True), WINDOWS[:3] if deep else WINDOWS[:1]):
            out.append({'kind': 'raw', 'name': name, 'com': com, 'hole': hole, 'win': win, 'bound': 5 if deep else 4,
                        'n': [2, 3, 8], 'batch': [0, 1, 2, 3, 5, 7, 1000], 'wide': 6 if deep else 2})
    for com, herm in product((False, True), repeat=2):
        out.append({'kind': 'com', 'com': com, 'herm': herm})
    for kind in ('nested', 'bch', 'linear', 'recursive', 'amp'):
        for n, herm in ((2, True), (5, True), (3, False)):
            out.append({'kind': kind, 'n': n, 'herm': herm})
    # (batch sizes of the contraction stream), process count
    for sizes in ([9999, 1], [9999, 1, 1], [10000], [10001], [5000, 5000, 1], [9999, 2, 9999, 1], [10000, 10000],
                  [10000, 3], [0, 10000, 0], [12000, 12000, 5]):
        for n in (1, 2, 3, 4, 8):
            if n == 1 and sizes not in ([9999, 1, 1], [10000, 3], [10000]) and not deep:
                continue
            out.append({'kind': 'stream', 'sizes': [s * max(1, n // 2) if s > 3 else s for s in sizes], 'n': n,
                        'herm': True})
            if deep or (n < 4 and sizes in ([9999, 1, 1], [10001], [10000, 3])):
                out.append(dict(out[-1], herm=False))
    out.append({'kind': 'real', 'name': 'H1 T1', 'n': 2})
    out.append({'kind': 'real', 'name': 'H2 T1', 'n': 3})
    out.sort(key=lambda c: {'stream': 0, 'bch': 1, 'nested': 1, 'raw': 2}.get(c['kind'], 3))
    return out


def fixed(n, call):
    return range(n)


def reverse(n, call):
    return range(n)[::-1]


def rotate(n, call):
    k = (call + 1) % n if n else 0
    return list(range(n))[k:] + list(range(n))[:k]


def interleave(n, call):
    return list(range(1, n, 2)) + list(range(0, n, 2))


def plains(ts):
    return [conv.plain(t) for t in ts]


def compare(res, case, got, ref, sched):
    res.traces += 1
    if got != ref:
        lost = [x for x in ref if x not in got][:2]
        new = [x for x in got if x not in ref][:2]
        res.fail(f"{case} with completion orders {sched.calls[:4]}: {len(got)} terms instead of {len(ref)}; missing "
                 f"{[conv.show(t) for t in lost]}, unexpected {[conv.show(t) for t in new]}")


def contract(case, res):
    terms = PRODUCTS[case['name']]
    kw = dict(min_n_open=case['win'][0], max_n_open=case['win'][1], for_commutator=case['com'],
              hermitian_tensor=case['herm'])
    ref = plains(phys.contract_terms(terms(), n_process=1, **kw))
    with fakepool.controlled(fixed) as s:
        got = plains(phys.contract_terms(terms(), n_process=case['n'], **kw))
    compare(res, case, got, ref, s)
    res.states += 1
    calls = s.calls
    res.outcomes.add((len(calls), calls[0][0] if calls else 0))
    if len(calls) == 1:
        n = calls[0][0]
        res.bump('orders_exhaustive', int(n <= case['bound']))
        for o in fakepool.all_orders(n, case['bound'], case['wide']):
            with fakepool.controlled(lambda m, c: o) as s:
                got = plains(phys.contract_terms(terms(), n_process=case['n'], **kw))
            compare(res, case, got, ref, s)
            res.states += 1
            res.transitions += n
    elif calls:
        for f in (reverse, rotate, interleave):
            with fakepool.controlled(f) as s:
                compare(res, case, plains(phys.contract_terms(terms(), n_process=case['n'], **kw)), ref, s)
            res.states += 1
    res.sample = {'case': case, 'terms': len(ref), 'chunks': [c[0] for c in calls]}


def plain_con(con):
    sign, dens, op = con
    return (sign, tuple(sorted(conv.plain_tensor(t) for t in dens)), tuple(conv.idx(i) for i in op.cre_ops.indices),
            tuple(conv.idx(i) for i in op.ann_ops.indices))


def raw(case, res):
    ops = lambda: [t.sq_op for t in PRODUCTS[case['name']]()]
    kw = dict(min_n_open=case['win'][0], max_n_open=case['win'][1], for_commutator=case['com'],
              expand_hole=case['hole'])
    run = lambda **k: Counter(plain_con(c) for b in sqc.compute_operator_contractions(ops(), **kw, **k) for c in b)
    ref = run()
    for n, b in product(case['n'], case['batch']):
        with fakepool.controlled(fixed) as s:
            got = run(n_process=n, batch_size=b)
        res.states += 1
        res.traces += 1
        if got != ref:
            res.fail(f"{case} n_process={n} batch_size={b}: {sum(got.values())} contractions, serial {sum(ref.values())}")
        if len(s.calls) == 1 and n == case['n'][0]:
            m = s.calls[0][0]
            if m > 12:
                orders = [tuple(f(m, 0)) for f in (reverse, rotate, interleave)]
            else:
                orders = fakepool.all_orders(m, case['bound'], case['wide'])
            for o in orders:
                with fakepool.controlled(lambda q, c: o):
                    got = run(n_process=n, batch_size=b)
                res.states += 1
                res.traces += 1
                res.transitions += m
                if got != ref:
                    res.fail(f"{case} n_process={n} batch_size={b} completion order {o}: {sum(got.values())} "
                             f"contractions, serial {sum(ref.values())}")
    res.outcomes.add(len(ref))


def stream(case, res):
    """ contract_terms on a stream of contractions that crosses the batch boundary: the contraction generator is
    replaced by one that repeats the contractions of H1 T1 in batches of the given sizes. """
    if not hasattr(phys, 'compute_operator_contractions'):
        res.bump('stream_skipped')
        return
    terms = [H(1), T(1)]
    cons = [c for b in sqc.compute_operator_contractions([t.sq_op for t in terms]) for c in b]
    used = [0]

    def gen(*a, **k):
        used[0] += 1
        n = 0
        for s in case['sizes']:
            yield [cons[(n + i) % len(cons)] for i in range(s)]
            n += s
    total = sum(case['sizes'])
    mult = [total // len(cons) + (i < total % len(cons)) for i in range(len(cons))]
    want = {}
    for m, (sign, dens, op) in zip(mult, cons):
        ts = terms[0].list_of_tensors + terms[1].list_of_tensors
        t = conv.plain(Term(ts + dens, op, sign * terms[0].coeff * terms[1].coeff).canonicalize_sympy(
            hermitian_tensor=case['herm']))
        want[t[1:]] = want.get(t[1:], 0) + m * t[0]
    want = {k: v for k, v in want.items() if v}
    real = phys.compute_operator_contractions
    phys.compute_operator_contractions = gen
    try:
        for f in (fixed, reverse) if case['n'] > 1 else (fixed,):
            with fakepool.controlled(f) as s:
                got = plains(phys.contract_terms([H(1), T(1)], n_process=case['n'],
                                                 hermitian_tensor=case['herm']))
            if not used[0]:
                res.bump('stream_skipped')
                return
            res.states += 1
            res.traces += 1
            res.transitions += len(case['sizes'])
            if {g[1:]: g[0] for g in got} != want or len(got) != len(want):
                res.fail(f"contraction stream of batches {case['sizes']} with {case['n']} processes, hermitian {case['herm']}: coefficients "
                         f"{[str(g[0]) for g in got]}, expected {[str(v) for v in want.values()]}")
            if got != plains(sorted(conv.real(g) for g in got)):
                res.fail("terms not sorted")
    finally:
        phys.compute_operator_contractions = real
    res.sample = {'batches': case['sizes'], 'n_process': case['n'], 'pool_calls': [c[0] for c in s.calls]}


def composite(case, res):
    h = dict(hermitian_tensor=case['herm'])
    if case['kind'] == 'nested':
        f = lambda n: plains(phys.nested_commutator_cc(2, [1], max_n_open=2, single_reference=True, n_process=n,
                                                          **h))
    elif case['kind'] == 'bch':
        f = lambda n: [(k, plains(v)) for k, v in phys.bch_cc_rsc(2, [1], 2, (0, 2), single_reference=True,
                                                                  n_process=n, **h).items()]
    elif case['kind'] == 'linear':
        f = lambda n: plains(phys.linear_commutator([H(1), H(2)], [T(1), T(1, excitation=False, scale_factor=-1.0)],
                                                    0.5, 0, 4, n_process=n, **h))
    elif case['kind'] == 'amp':
        f = lambda n: plains(phys.linear_commutator_amp([H(1), H(2)], [1], -0.5, 0, 4, 2, n_process=n, unitary=True, **h))
    else:
        f = lambda n: [(k, plains(v)) for k, v in sorted(phys.recursive_single_commutator(
            [H(1), T(1), T(1, start=4)], [2, 2], [(0, 2), (0, 2)], n_process=n, **h).items())]
    ref = f(1)
    for o in (fixed, reverse, rotate, interleave):
        with fakepool.controlled(o) as s:
            got = f(case['n'])
        res.states += 1
        res.traces += 1
        res.transitions += sum(c[0] for c in s.calls)
        if got != ref:
            res.fail(f"{case}: the result with {case['n']} processes differs from the serial one")
    res.sample = {'case': case, 'pool_calls': len(s.calls)}


def run_case(case):
    res = Result()
    fakepool.reset()
    k = case['kind']
    if k == 'contract':
        contract(case, res)
    elif k == 'raw':
        raw(case, res)
    elif k == 'stream':
        stream(case, res)
    elif k == 'real':
        # binds the stand-in to the real pool
        t = PRODUCTS[case['name']]
        ref = plains(phys.contract_terms(t()))
        got = plains(phys.contract_terms(t(), n_process=case['n']))
        raw1 = Counter(plain_con(c) for b in sqc.compute_operator_contractions([x.sq_op for x in t()]) for c in b)
        raw2 = Counter(plain_con(c) for b in sqc.compute_operator_contractions([x.sq_op for x in t()], n_process=2,
                                                                               batch_size=3) for c in b)
        with fakepool.controlled(reverse):
            fake = plains(phys.contract_terms(t(), n_process=case['n']))
        res.states += 2
        res.traces += 3
        res.bump('real_pool_runs', 2)
        if not (got == ref == fake and raw1 == raw2):
            res.fail("the real process pool gives a different result from the serial computation")
    elif k == 'com':
        for npr in (2, 3):
            a, b = alg.one('g', 'g'), alg.amp(1)
            f = lambda n: plains(phys.single_commutator(conv.real(a), conv.real(b), for_commutator=case['com'],
                                                        n_process=n, hermitian_tensor=case['herm']))
            ref = f(1)
            for o1 in fakepool.all_orders(3, 5):
                for o2 in fakepool.all_orders(3, 5):
                    with fakepool.controlled(lambda n, c: o1 if n == 3 and c == 0 else o2 if n == 3 else range(n)) as s:
                        got = f(npr)
                    res.states += 1
                    compare(res, case, got, ref, s)
    else:
        composite(case, res)
    return res


if __name__ == '__main__':
    harness.main(globals())
