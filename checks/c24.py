""" C24: queries and conversions of index lists, tensors and operators are truthful. """
from itertools import combinations, permutations, product

import _path  # noqa
from mc import harness, conv
from mc.harness import Result, captured
from mc.sem import ELEM
import dsrg_generator.mo_space as mo_space
from dsrg_generator.Index import Index
from dsrg_generator.Indices import Indices
from dsrg_generator.IndicesPair import IndicesPair
from dsrg_generator.SQOperator import SecondQuantizedOperator
from dsrg_generator.Tensor import Tensor
from dsrg_generator.Term import Term
from dsrg_generator.mo_space import MOSpaceCounter
from SpaceCounter import SpaceCounter

PID = 'C24'
LEVEL = 'model_checking'
RULE = ("every index list up to the bound over the label alphabets (each space, both spins, two numbers), every pair of "
        "lists, every tensor and operator built from them; states = objects, transitions = queries on the real objects, "
        "traces = answers compared with the definition in terms of the single indices")
ASSUMPTIONS = ["objects are well formed (C20)"]

LABELS = {'so': 'g p h v c a'.split(), 'si': 'g p h v c a G P H V C A'.split(), 'sa': 'g p h v c a'.split()}
PAIRS = {'so': 'g0 p0 h1 v0 c0 a0 a1 a10', 'si': 'g0 G0 p0 P1 h0 v0 V0 c0 C0 a0 A0', 'sa': 'g0 p0 h1 v0 c0 a0 a1'}


def words(labels, top):
    for n in range(top + 1):
        yield from permutations(labels, n)


def inversions(p):
    return sum(p[i] > p[j] for i in range(len(p)) for j in range(i + 1, len(p)))


def low(s):
    return s[0].lower()


def cases(tier):
    deep = tier == 'thorough'
    out = [{'kind': 'index'}]
    for mode in ('so', 'si', 'sa'):
        labels = [s + str(n) for s in LABELS[mode] for n in ((0, 1) if mode != 'si' else (0,))]
        for first in labels:
            out.append({'kind': 'list', 'mode': mode, 'first': first, 'labels': labels, 'top': 3 if deep else 2})
        ps = PAIRS[mode].split()
        ws = [list(w) for w in words(ps, 2)]
        for k in range(0, len(ws), 4):
            out.append({'kind': 'lists', 'mode': mode, 'one': ws[k:k + 4], 'two': ws})
        few = ps[:6] if not deep else ps
        ws = [list(w) for w in words(few, 2)]
        for k in range(0, len(ws), 2):
            out.append({'kind': 'pair', 'mode': mode, 'one': ws[k:k + 2], 'two': ws})
    out += [{'kind': 'counters', 'mode': m} for m in ('so', 'si')] + [{'kind': 'costs', 'n': n} for n in (1, 2, 3)]
    out += [{'kind': 'free', 'lower': l} for l in ([], ['h0'], ['g1', 'p0'], ['v1', 'c0', 'a3'], ['a5', 'a4', 'g7', 'h2'])]
    out.append({'kind': 'perm', 'n': 6 if deep else 5})
    for mode in ('so', 'si'):
        out.append({'kind': 'space', 'mode': mode})
    out.append({'kind': 'spins', 'top': 5 if deep else 4})
    return out


class Q:
    """ Compares answers. """

    def __init__(self, res, x):
        self.res, self.x = res, x
        res.states += 1

    def __call__(self, what, got, want):
        self.res.transitions += 1
        self.res.traces += 1
        if got != want or type(got) is bool and type(want) is not bool:
            self.res.fail(f"{type(self.x).__name__}({self.x}): {what} is {got!r}, expected {want!r}")

    def raises(self, what, err, f):
        self.res.transitions += 1
        self.res.traces += 1
        try:
            with captured():
                got = f()
                if hasattr(got, '__next__'):
                    got = list(got)
        except err:
            return
        self.res.fail(f"{type(self.x).__name__}({self.x}): {what} gives {got!r}, expected {err}")


def nm(x):
    return [str(i) for i in x]


def check_list(res, w, mode):
    x = Indices.make_indices(list(w), mode)
    q = Q(res, x)
    n = len(w)
    q('indices', nm(x.indices), list(w))
    q('iteration', nm(x), list(w))
    q('size', (x.size, len(x)), (n, n))
    q('set', {str(i) for i in x.indices_set}, set(w))
    q('items', [str(x[k]) for k in range(n)], list(w))
    q('items from the end', [str(x[-k]) for k in range(1, n + 1)], list(w)[::-1])
    q('text', str(x), ', '.join(w))
    q('ambit', x.ambit(), ','.join(w))
    q('latex', x.latex(), '{ ' + ' '.join(f"{i[0]}_{{{i[1:]}}}" for i in w) + ' }')
    q('latex in math mode', x.latex(True), '$' + x.latex() + '$')
    y = x.clone()
    q('clone', (nm(y), type(y) is type(x), y == x, y is x), (list(w), True, True, False))
    q.raises('item out of range', IndexError, lambda: x[n])
    for s in LABELS['si']:
        q(f'membership of {s}0', Index(s + '0') in x, s + '0' in w)
        q(f'count of {s}', x.count_index_space([s]), sum(i[0] == s for i in w))
    for a, b in combinations(LABELS['si'], 2):
        q(f'count of {a} and {b}', x.count_index_space([a, b]), sum(i[0] in (a, b) for i in w))
    q('count of nothing', x.count_index_space([]), 0)
    q.raises('count of an invalid space', ValueError, lambda: x.count_index_space(['x']))
    beta = [i for i in w if i[0].isupper()]
    alpha = [i for i in w if not i[0].isupper()]
    q('number of beta indices', x.n_beta(), len(beta))
    if mode == 'si':
        q('alpha indices', nm(x.alpha_indices), alpha)
        q('beta indices', nm(x.beta_indices), beta)
        q('spin count', list(x.spin_count), [len(alpha), len(beta)])
        q('number of alpha indices', x.n_alpha(), len(alpha))
        q('one spin only', x.spin_pure, not alpha or not beta)
    else:
        for what in ('alpha_indices', 'beta_indices', 'spin_count', 'spin_pure'):
            q.raises(what, TypeError, lambda: getattr(x, what))
    if mode == 'so':
        for k in (None, *range(n + 1)):
            q(f'spin cases with {k} beta indices', sorted(tuple(nm(y)) for y in x.generate_spin_cases(k)),
              sorted(tuple(i.upper() if b else i for i, b in zip(w, p)) for p in product((0, 1), repeat=n)
                     if k is None or sum(p) == k))
        q('kinds of the spin cases', all(type(y) is conv.MODES['si'] for y in x.generate_spin_cases()), True)
        q.raises('too many beta indices', ValueError, lambda: x.generate_spin_cases(n + 1))
        q.raises('a fractional number of beta indices', TypeError, lambda: x.generate_spin_cases(1.0))
    else:
        q.raises('spin cases', TypeError, lambda: x.generate_spin_cases())


def check_lists(res, w, v, mode):
    x, y = Indices.make_indices(list(w), mode), Indices.make_indices(list(v), mode)
    q = Q(res, x)
    q(f'overlap with {v}', x.any_overlap(y), bool(set(w) & set(v)))
    q(f'permutation of {v}', x.is_permutation(y), sorted(w) == sorted(v))
    if set(w) & set(v):
        q.raises(f'sum with {v}', ValueError, lambda: x + y)
    else:
        z = x + y
        q(f'sum with {v}', (nm(z), type(z) is type(x), z.size), (list(w) + list(v), True, len(w) + len(v)))
        q('first list after the sum', (nm(x), nm(y)), (list(w), list(v)))
    if sorted(w) == sorted(v):
        q(f'permutations to {v}', x.count_permutations(y), inversions([list(w).index(i) for i in v]))
    else:
        q.raises(f'permutations to {v}', ValueError, lambda: x.count_permutations(y))


TENSORS = ['X', 'H', 'T', 'L', 'K', 'E']


def check_pair(res, w, v, mode):
    u, l = Indices.make_indices(list(w), mode), Indices.make_indices(list(v), mode)
    objs = [IndicesPair(u, l), SecondQuantizedOperator(u, l)]
    for k in TENSORS:
        try:
            objs.append(conv.KIND_CLS[k](u, l, name=conv.KIND_NAME[k]))
        except ValueError:
            pass
    n, m = len(w), len(v)
    for x in objs:
        q = Q(res, x)
        op = isinstance(x, SecondQuantizedOperator)
        tensor = not op and type(x) is not IndicesPair
        q('upper', nm(x.upper_indices), list(w))
        q('lower', nm(x.lower_indices), list(v))
        q('numbers', (x.n_upper, x.n_lower, x.size), (n, m, n + m))
        q('set', {str(i) for i in x.indices_set}, set(w) | set(v))
        q('upper first', nm(x.indices()), list(w) + list(v))
        q('lower first', nm(x.indices(False)), list(v) + list(w))
        q('kind of indices', x.indices_type is conv.MODES[mode], True)
        q('empty', x.is_empty(), n + m == 0)
        q('diagonal indices', {str(i) for i in x.diagonal_indices()}, set(w) & set(v))
        if n == m:
            q('rank', x.n_body, n)
            q('spin conserving', x.is_spin_conserving(), sum(i[0].isupper() for i in w) == sum(i[0].isupper() for i in v))
        else:
            q.raises('rank', ValueError, lambda: x.n_body)
            q.raises('spin conserving', ValueError, lambda: x.is_spin_conserving())
        y = x.clone()
        q('clone', (y == x, type(y) is type(x), nm(y.indices())), (True, True, list(w) + list(v)))
        if not tensor:
            y = x.clone(True)
            q('adjoint', (type(y) is type(x), nm(y.upper_indices), nm(y.lower_indices)), (True, list(v), list(w)))
        z, sign = x.canonicalize()
        (su, a), (sl, b) = u.canonicalize(), l.canonicalize()
        q('sorted', (type(z) is type(x), nm(z.upper_indices), nm(z.lower_indices), sign), (True, nm(su), nm(sl), a * b))
        text = lambda s: '{ ' + ' '.join(f"{i[0]}_{{{i[1:]}}}" for i in s) + ' }'
        q('latex', x.latex(), ('a' if op else x.name if tensor else '') + f"^{text(w)}_{text(v)}")
        if op or tensor:
            t = x.latex(True)
            q('latex in math mode', (t[:1], t[-1:], t[1:-1].strip()), ('$', '$', x.latex().strip()))
        if n and m and type(x) is IndicesPair:
            q('ambit, upper first', x.ambit(), '["' + ','.join(w + v) + '"]')
            q('ambit, lower first', x.ambit(False), '["' + ','.join(v + w) + '"]')
        if op:
            q('creation', nm(x.cre_ops), list(w))
            q('annihilation', nm(x.ann_ops), list(v))
            q('numbers of operators', (x.n_cre, x.n_ann, x.n_ops), (n, m, n + m))
            q('particle conserving', x.is_particle_conserving(), n == m)
            if n + m:
                q('possible excitation', x.is_possible_excitation(),
                  all(low(i) != 'c' for i in w) and all(low(i) != 'v' for i in v) and {low(i) for i in w + v} != {'a'})
                if n == m and mode != 'sa' and not set(w) & set(v) and x.is_spin_conserving():
                    t = Term([conv.KIND_CLS['H'](l, u)], x, -0.5)
                    q('possible excitation of a term', t.is_possible_excitation(), x.is_possible_excitation())
                    q('copy', (Term.from_term(t) == t, Term.from_term(t, True).coeff, t.coeff), (True, 0.5, -0.5))
                    q('a term like another', (t.almost_equal(Term.from_term(t, True)), t == Term.from_term(t, True)),
                      (True, False))
            e = x.void()
            q('empty operator of the same kind', (e.is_empty(), e.indices_type is x.indices_type), (True, True))
        if tensor:
            q('clone keeps name and priority', (y.name, y.priority), (x.name, x.priority))
            z = x.__class__(u, l, name='Z', priority=7).clone()
            q('clone keeps another name and priority', (z.name, z.priority), ('Z', 7))
            z = x.__class__(u, l, name='Z', priority=7).from_indices(u, l)
            q('new indices keep name and priority', (type(z) is type(x), z.name, z.priority, nm(z.indices())),
              (True, 'Z', 7, list(w) + list(v)))
            z, sign = x.__class__(u, l, name='Z', priority=7).canonicalize()
            q('sorting keeps name and priority', (type(z) is type(x), z.name, z.priority, sorted(nm(z.indices()))),
              (True, 'Z', 7, sorted(list(w) + list(v))))
            if n != m:
                t = x.ambit()
                q('ambit', (t[:len(x.name)], t[t.index('['):]), (x.name, '["' + ','.join(w + v) + '"]'))
            if n == m and n:
                name = f"{x.name}{n}"
                first = True
                if conv.kind_of(x) == 'T':     # amplitudes are stored [holes, particles]
                    first = not (any('v' in ELEM[low(i)] for i in w) or any('c' in ELEM[low(i)] for i in v))
                q('ambit', x.ambit(), name + '["' + ','.join(w + v if first else v + w) + '"]')
            if conv.kind_of(x) == 'T':
                q('all active', x.is_all_active(), all(low(i) == 'a' for i in w + v))
    if mode == 'so' and n == m:
        for x in objs:
            q = Q(res, x)
            got = [(type(y) if type(x) is not IndicesPair else IndicesPair, tuple(nm(y.upper_indices)),
                    tuple(nm(y.lower_indices)), y.indices_type) for y in x.generate_spin_cases()]
            up = lambda s, p: tuple(i.upper() if b else i for i, b in zip(s, p))
            want = [(type(x), up(w, p), up(v, r), conv.MODES['si']) for p in product((0, 1), repeat=n)
                    for r in product((0, 1), repeat=n) if sum(p) == sum(r)]
            key = lambda t: t[1:3]
            if isinstance(x, Tensor):
                z = list(x.__class__(u, l, name='Z', priority=7).generate_spin_cases())
                q('spin cases keep name and priority', {(y.name, y.priority) for y in z}, {('Z', 7)} if z else set())
            q('spin cases', sorted(got, key=key), sorted(want, key=key))


def check_free_spins(res, w, v):
    """ spin cases without conservation of the spin, any numbers of indices """
    u, l = Indices.make_indices(list(w), 'so'), Indices.make_indices(list(v), 'so')
    for x in (IndicesPair(u, l), SecondQuantizedOperator(u, l), Tensor(u, l, name='Z', priority=7)):
        q = Q(res, x)
        got = [(tuple(nm(y.upper_indices)), tuple(nm(y.lower_indices))) for y in x.generate_spin_cases(False)]
        up = lambda s, p: tuple(i.upper() if b else i for i, b in zip(s, p))
        q('free spin cases', sorted(got), sorted((up(w, p), up(v, r)) for p in product((0, 1), repeat=len(w))
                                                 for r in product((0, 1), repeat=len(v))))
        if len(w) != len(v):
            q.raises('spin cases', ValueError, lambda: list(x.generate_spin_cases()))
        y = x.clone(True) if type(x) is not Tensor else None
        if y is not None:
            q('adjoint', (nm(y.upper_indices), nm(y.lower_indices)), (list(v), list(w)))


def check_space(res, mode):
    """ The spaces in which deltas, densities and hole densities can be nonzero. """
    labels = LABELS[mode]
    label_of = {frozenset(ELEM[s]): s for s in 'gphvca'}
    for a, b in product(labels, repeat=2):
        if a.isupper() != b.isupper():
            continue
        common = set(ELEM[a.lower()]) & set(ELEM[b.lower()])
        up = (lambda s: s.upper()) if a.isupper() else (lambda s: s)
        for kind, inside in (('L', {'c', 'a'}), ('E', {'a', 'v'}), ('K', {'c', 'a', 'v'})):
            x = conv.real_tensor((kind, conv.KIND_NAME[kind], ((a, 0),), ((b, 1),)), mode)
            q = Q(res, x)
            both = frozenset(common & inside)
            # the largest space that has a label
            want = up(label_of[both]) if both else ''
            q('space where it is nonzero', x.downgrade_indices(), want)
        x = conv.real_tensor(('E', 'C', ((a, 0),), ((b, 1),)), mode)
        q = Q(res, x)
        got = [(conv.kind_of(y), nm(y.upper_indices), nm(y.lower_indices)) for y in x.expand()]
        full = [('K', [a + '0'], [b + '1']), ('L', [a + '0'], [b + '1'])]
        if 'v' in (a.lower(), b.lower()):
            q('delta minus density', got, full[:1])
        else:
            q('delta minus density', got, full)
    for kind in 'HTX':
        x = conv.real_tensor((kind, conv.KIND_NAME[kind], (('a', 0),), (('a', 1),)), mode)
        Q(res, x).raises('space where it is nonzero', NotImplementedError, x.downgrade_indices)
    for n in (1, 2):
        ws = ['a0', 'a1', 'a2', 'a3', 'a4']
        for w in permutations(ws, 2 * n):
            x = conv.real_tensor(('H', 'H', conv.P_(','.join(w[:n])), conv.P_(','.join(w[n:]))), mode)
            for v in permutations(ws[1:], 2 * n):
                y = conv.real_tensor(('T', 'T', conv.P_(','.join(v[:n])), conv.P_(','.join(v[n:]))), mode)
                Q(res, x)(f'common indices with {y}', x.any_overlapped_indices(y),
                          bool(set(w[:n]) & set(v[:n]) or set(w[n:]) & set(v[n:])))


def check_counters(res, mode):
    """ The two counters of index spaces. """
    ws = ['g0', 'v0', 'c0', 'a0'] if mode == 'so' else ['g0', 'V0', 'c0', 'A0', 'v0']
    ts = [(u, l) for n in (1, 2) for u in permutations(ws, n) for l in permutations(ws, n)]
    prio = mo_space.space_priority_so if mode == 'so' else mo_space.space_priority
    for n, (u, l) in enumerate(ts):
        x = conv.real_tensor(('X', 'A', conv.P_(','.join(u)), conv.P_(','.join(l))), mode)
        for v, m in ts:
            y = conv.real_tensor(('X', 'B', conv.P_(','.join(v)), conv.P_(','.join(m))), mode)
            c = SpaceCounter(x, y)
            q = Q(res, c)

            def count(names):
                out = [0] * len(prio)
                for i in names:
                    out[prio[i[0]]] += 1
                return out
            up, low_ = set(u) & set(m), set(l) & set(v)
            q('upper', list(c.upper), count(up))
            q('lower', list(c.lower), count(low_))
            q('numbers', (c.n_upper, c.n_lower, c.size), (len(up), len(low_), len(up) + len(low_)))
            t = c.transpose()
            q('transposed', (list(t.upper), list(t.lower), t.n_upper, t.n_lower), (count(low_), count(up), len(low_), len(up)))
            q('unchanged', (list(c.upper), list(c.lower)), (count(up), count(low_)))


def check_costs(res, top):
    for ks in combinations('gphvcaGPHVCA', top):
        for ns in product(range(3), repeat=top):
            c = MOSpaceCounter(dict(zip(ks, ns)))
            q = Q(res, c)
            n = {s: 0 for s in 'gphvca'}
            for k, m in zip(ks, ns):
                n[k.lower()] += m
            q('virtual, core, active', list(c.parsed_counter), [n['v'] + n['p'] + n['g'], n['c'] + n['h'], n['a']])
            q('exponent', c.overall_scaling, sum(ns))
            q('counts', {k: v for k, v in c.raw_counter.items() if v}, {k: v for k, v in n.items() if v})
            q('text', sorted(w for w in str(c).split() if not w.endswith('^0')), sorted(f"{k}^{v}" for k, v in n.items() if v))
    q = Q(res, 'MOSpaceCounter')
    q.raises('an invalid space', ValueError, lambda: MOSpaceCounter({'x': 1}))


def run_case(case):
    res = Result()
    if case['kind'] == 'counters':
        check_counters(res, case['mode'])
        e = Term.make_empty(case['mode'])
        Q(res, e)('empty term', (e.is_void(), e.n_tensors, e.sq_op.is_empty(), e.sq_op.indices_type is conv.MODES[case['mode']]),
                  (True, 0, True, True))
    elif case['kind'] == 'costs':
        check_costs(res, case['n'])
    elif case['kind'] == 'free':
        ws = ['g0', 'v0', 'a0', 'c1']
        for n in range(5):
            for w in permutations(ws, n):
                check_free_spins(res, w, case['lower'])
    kind = case['kind']
    if kind == 'index':
        for s in LABELS['si']:
            for n in (0, 1, 9, 10, 123):
                x = Index(f"{s}{n}")
                q = Q(res, x)
                q('space and number', (x.space, x.number, x.name, str(x)), (s, n, f"{s}{n}", f"{s}{n}"))
                q('beta', x.is_beta(), s.isupper())
                q('to beta', x.to_beta().name, f"{s.upper()}{n}")
                q('to alpha', x.to_alpha().name, f"{s.lower()}{n}")
                q('unchanged', x.name, f"{s}{n}")
                q('latex', x.latex(), f"{s}_{{{n}}}")
                q('latex in math mode', x.latex(True), f"${s}_{{{n}}}$")
    elif kind == 'list':
        for w in words([x for x in case['labels'] if x != case['first']], case['top'] - 1):
            for k in range(len(w) + 1):
                check_list(res, w[:k] + (case['first'],) + w[k:], case['mode'])
        check_list(res, (), case['mode'])
    elif kind == 'lists':
        for w in case['one']:
            for v in case['two']:
                check_lists(res, w, v, case['mode'])
    elif kind == 'pair':
        for w in case['one']:
            for v in case['two']:
                check_pair(res, tuple(w), tuple(v), case['mode'])
    elif kind == 'perm':
        n = case['n']
        base = ['v0', 'a0', 'g0', 'c1', 'h0', 'a2'][:n]
        x = Indices.make_indices(base, 'so')
        q = Q(res, x)
        for p in permutations(range(n)):
            q(f'permutations to {p}', x.count_permutations(Indices.make_indices([base[i] for i in p], 'so')), inversions(p))
    elif kind == 'space':
        check_space(res, case['mode'])
    elif kind == 'spins':
        n = case['top']
        x = Indices.make_indices([f"{s}0" for s in 'gphvca'[:n]], 'so')
        q = Q(res, x)
        for k in (None, *range(n + 1)):
            got = [tuple(nm(y)) for y in x.generate_spin_cases(k)]
            want = [tuple(i.upper() if b else i for i, b in zip(nm(x), p)) for p in product((0, 1), repeat=n)
                    if k is None or sum(p) == k]
            q(f'spin cases {k}', sorted(got), sorted(want))
    res.outcomes.add((kind, case.get('mode'), res.states))
    return res


if __name__ == '__main__':
    harness.main(globals())
