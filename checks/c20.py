""" C20: ill-formed objects are rejected, well-formed ones accepted. """
from collections import Counter
from itertools import product

import _path  # noqa
from mc import harness, conv
from mc.harness import Result
from dsrg_generator.Index import Index
from dsrg_generator.Indices import Indices, IndicesSpinOrbital, IndicesSpinIntegrated, IndicesSpinAdapted
from dsrg_generator.IndicesPair import IndicesPair
from dsrg_generator.SQOperator import SecondQuantizedOperator
from dsrg_generator.Tensor import Tensor, Cumulant, HoleDensity, Kronecker, ClusterAmplitude, HamiltonianTensor
from dsrg_generator.Term import Term

PID = 'C20'
LEVEL = 'model_checking'
RULE = ("every name up to the stated length over the character alphabet, every index word, pair of words, tensor list "
        "and operator over the label alphabets; states = constructor calls, transitions = accepted objects whose "
        "content was compared with the arguments, traces = rejected calls")
ASSUMPTIONS = ["names of ASCII characters", "upper and lower indices are given in the same form (both strings, both "
               "lists, both index objects)", "densities, amplitudes and Hamiltonians have at least one index pair"]

LABELS = 'gphvcaGPHVCA'
REJ = (TypeError, ValueError)
KINDS = {'L': Cumulant, 'E': HoleDensity, 'K': Kronecker, 'T': ClusterAmplitude, 'H': HamiltonianTensor, 'X': Tensor}
TYPES = {'so': IndicesSpinOrbital, 'si': IndicesSpinIntegrated, 'sa': IndicesSpinAdapted}
FULLNAME = {'so': 'spin-orbital', 'si': 'spin-integrated', 'sa': 'spin-adapted'}


def cases(tier):
    deep = tier == 'thorough'
    out = []
    for c in ['', *LABELS, *'xz0 _']:
        out.append({'do': 'index', 'first': c, 'n': 5 if deep else 4})
    out.append({'do': 'nonstring'})
    for t in TYPES:
        for w in ['g0', 'g1', 'a0', 'A0', 'G0', 'v10', 'V10', 'g00', 'x0', 'a', '', ' g0', 'g 0', 'ga']:
            out.append({'do': 'indices', 'type': t, 'first': w, 'n': 4 if deep else 3})
    for k in KINDS:
        for t in TYPES:
            for a in LABELS:
                out.append({'do': 'tensor', 'kind': k, 'type': t, 'first': a, 'deep': deep})
    for n in range(4):
        for first in range(12):
            out.append({'do': 'term', 'n': n, 'first': first, 'deep': deep})
    out.append({'do': 'mixed'})
    for t in TYPES:
        for n in range(4, 17 if deep else 13):
            out.append({'do': 'long', 'type': t, 'n': n})
    return out


def attempt(res, what, f, valid, content=None, ok=REJ):
    res.states += 1
    try:
        x = f()
    except ok as e:
        res.traces += 1
        if valid:
            res.fail(f"{what} is well formed but was rejected: {e!r}"[:400])
        return None
    except Exception as e:
        res.fail(f"{what} raised {e!r}"[:400])
        return None
    if not valid:
        res.fail(f"{what} is ill formed but was accepted: {x!r}"[:400])
        return None
    res.transitions += 1
    if content is not None:
        bad = content(x)
        if bad:
            res.fail(f"{what}: {bad}")
    return x


def good_name(s):
    return len(s) > 1 and s[0] in LABELS and all(c in '0123456789' for c in s[1:])


def split(s):
    return (s[0], int(s[1:]))


def run_index(res, case):
    chars = '019g A.x-_'
    for n in range(0, case['n']):
        for w in product(chars, repeat=n):
            if not case['first'] and w:
                continue
            s = case['first'] + ''.join(w)

            def content(i):
                if (i.space, i.number) != split(s):
                    return f"is {i.space} {i.number}"
                if i.is_beta() != s[0].isupper():
                    return "spin"
                if conv.idx(i.to_beta()) != (s[0].upper(), int(s[1:])) or conv.idx(i.to_alpha()) != (s[0].lower(), int(s[1:])):
                    return "change of spin"
                if conv.idx(Index(i.name)) != split(s) or conv.idx(Index(str(i))) != split(s):
                    return "name"
            attempt(res, f"Index({s!r})", lambda: Index(s), good_name(s), content)


def run_nonstring(res):
    for x in (None, 0, 1, 1.5, ['g0'], ('g', 0), {'g0'}, b'g0', Index('g0'), True):
        attempt(res, f"Index({x!r})", lambda: Index(x), False)
    for t, cls in TYPES.items():
        for x in (None, 0, 1.5, {'g0'}, {'g0': 1}, iter(['g0']), Index('g0'), object()):
            attempt(res, f"{cls.__name__}({x!r})", lambda: cls(x), False)
            attempt(res, f"make_indices({x!r},{t})", lambda: Indices.make_indices(x, t), False)
        for x in ([None], [0], ['g0', 1], [['g0']], ('g0', None), [('g', 0)], [b'g0']):
            attempt(res, f"{cls.__name__}({x!r})", lambda: cls(x), False)
        for x in ([], (), ''):
            attempt(res, f"{cls.__name__}({x!r})", lambda: cls(x), True, lambda i: None if i.size == 0 else 'size')
            attempt(res, f"{cls.__name__}({x!r}) as operator", lambda: SecondQuantizedOperator(x, x, t), True,
                    lambda i: None if i.is_empty() and i.indices_type is cls else 'size')
    for t in ('', 'x', 'SO', None, 'spin'):
        attempt(res, f"make_indices(['g0'],{t!r})", lambda: Indices.make_indices(['g0'], t), False, ok=REJ + (KeyError,))
        attempt(res, f"make_tensor({t!r})", lambda: Tensor.make_tensor(t, ['g0'], ['g1']), False, ok=REJ + (KeyError,))
    op = lambda: SecondQuantizedOperator(['g0'], ['g1'])
    H = lambda: HamiltonianTensor(['g1'], ['g0'])
    for c, ok in ((1, True), ('2', True), (0.5, True), ('a', False), (None, False), ([], False), ('', False), (True, True)):
        attempt(res, f"Term coefficient {c!r}", lambda: Term([H()], op(), c), ok,
                lambda t: None if t.coeff == float(c) else 'coefficient')

        def setter():
            t = Term([H()], op(), 3.0)
            t.coeff = c
            return t
        attempt(res, f"coeff = {c!r}", setter, ok, lambda t: None if t.coeff == float(c) else 'coefficient')
    for x in (None, 'g0', [], IndicesPair(['g0'], ['g1']), H()):
        attempt(res, f"Term operator {x!r}", lambda: Term([H()], x), False)
    for x in (None, 'H', 1, op(), IndicesPair(['g1'], ['g0'])):
        attempt(res, f"Term tensors {x!r}", lambda: Term([x], op()), False)
        attempt(res, f"Term tensors H, {x!r}", lambda: Term([H(), x], op()), False)
    for k, cls in KINDS.items():
        for nm, ok in (('A', True), (1, False), (None, False)):
            attempt(res, f"{cls.__name__} name {nm!r}", lambda: cls(['a0'], ['a1'], 'so', nm), ok,
                    lambda t: None if t.name == nm else 'name')
        for pr, ok in ((7, True), (-3, True), ('x', False), (1.5, False), (None, False)):
            attempt(res, f"{cls.__name__} priority {pr!r}", lambda: cls(['a0'], ['a1'], 'so', 'A', pr), ok,
                    lambda t: None if t.priority == pr else 'priority')


def words_ok(words, typ):
    ws = [w.strip() for w in words]
    if not all(good_name(w) for w in ws):
        return False
    idx = [split(w) for w in ws]
    return len(set(idx)) == len(idx) and not (typ == 'so' and any(s.isupper() for s, _ in idx))


def run_indices(res, case):
    alpha = ['g0', 'g1', 'a0', 'A0', 'G0', 'v10', 'V10', 'g00', 'x0', 'a', '', ' g0', 'g 0', 'ga', 'A0 ']
    t = case['type']
    cls = TYPES[t]
    for n in range(0, case['n']):
        for rest in product(alpha, repeat=n):
            w = [case['first'], *rest]
            exact = [x == x.strip() for x in w]
            ok = words_ok(w, t)

            def content(i):
                if [conv.idx(j) for j in i] != [split(x.strip()) for x in w] or i.size != len(w) or len(i) != len(w):
                    return f"content {i}"
                if i.indices_set != set(i.indices) or type(i) is not cls:
                    return "index set or type"
            attempt(res, f"{cls.__name__}({w})", lambda: cls(w), ok and all(exact), content)
            s = ','.join(w)
            if w != ['']:
                attempt(res, f"{cls.__name__}({s!r})", lambda: cls(s), ok, content)
            if ok and all(exact):
                attempt(res, f"{cls.__name__}({tuple(w)})", lambda: cls(tuple(w)), True, content)
                attempt(res, f"{cls.__name__} of Index {w}", lambda: cls([Index(x) for x in w]), True, content)
                attempt(res, f"make_indices({w},{t})", lambda: Indices.make_indices(w, t), True, content)
                attempt(res, f"make_indices({w},{FULLNAME[t]})", lambda: Indices.make_indices(s, FULLNAME[t]), True, content)
                # joining two lists
                for m in range(len(w)):
                    attempt(res, f"{w[:m]} + {w[m:]}", lambda: cls(w[:m]) + cls(w[m:]), True, content)
                attempt(res, f"{w} + {w[:1]}", lambda: cls(w) + cls(w[:1]), False)


def tensor_ok(kind, typ, up, lo):
    if not words_ok(up, typ) or not words_ok(lo, typ):
        return False
    if kind == 'X':
        return True
    if len(up) != len(lo) or (kind in 'EK' and len(up) != 1):
        return False
    if sum(w[0].isupper() for w in up) != sum(w[0].isupper() for w in lo):
        return False
    if kind == 'T':
        for side in (up, lo):
            s = {w[0].lower() for w in side}
            if s & set('hc') and s & set('pv'):
                return False
    return True


def run_tensor(res, case):
    kind, t = case['kind'], case['type']
    cls = KINDS[kind]
    num = lambda w, k: [f"{s}{n + k}" for n, s in enumerate(w)]
    shapes = []
    for b in LABELS:
        shapes.append((case['first'], b))
    al = LABELS if case['deep'] or kind in 'TL' else 'gphGPa'
    for w in product(al, repeat=3):
        shapes.append((case['first'] + w[0], w[1] + w[2]))
    for w in product('hpaA', repeat=2):
        shapes.append((case['first'], w[0] + w[1]))
        shapes.append((case['first'] + w[0], w[1]))
    shapes += [(case['first'], ''), ('', case['first'])]
    for w in product('hpA' if not case['deep'] else 'hpaAV', repeat=3):
        shapes.append((case['first'] + w[0] + w[1], 'hp' + w[2]))
        shapes.append(('ap' + w[0], case['first'] + w[1] + w[2]))
    for u, l in shapes:
        for k in (5, 0):
            up, lo = num(u, 0), num(l, k)
            if k == 0 and len(u) != 1:
                continue            # shared labels only for the one-body case
            ok = tensor_ok(kind, t, up, lo)

            def content(x):
                if [conv.idx(j) for j in x.upper_indices] != [split(w) for w in up] or \
                        [conv.idx(j) for j in x.lower_indices] != [split(w) for w in lo] or x.indices_type is not TYPES[t] \
                        or type(x) is not cls:
                    return f"content {x}"
                if x.diagonal_indices() != set(x.upper_indices.indices) & set(x.lower_indices.indices):
                    return f"diagonal indices {x.diagonal_indices()}"
            attempt(res, f"{cls.__name__}({up},{lo},{t})", lambda: cls(up, lo, t), ok, content)
            if k:
                attempt(res, f"{cls.__name__}({','.join(up)!r},{','.join(lo)!r},{t})",
                        lambda: cls(','.join(up), ','.join(lo), FULLNAME[t]), ok, content)
                if ok:
                    attempt(res, f"{cls.__name__} of indices objects {up} {lo}",
                            lambda: cls(TYPES[t](up), TYPES[t](lo)), ok, content)
                    x = cls(up, lo, t, 'Q', 4)
                    for y in (x.clone(), x.from_indices(TYPES[t](up), TYPES[t](lo)), x.canonicalize()[0]):
                        if (y.name, y.priority, type(y)) != ('Q', 4, cls):
                            res.fail(f"a copy of {x} is a {type(y).__name__} {y.name} {y.priority}")


def run_mixed(res):
    for t, u in product(TYPES, repeat=2):
        for cls in [IndicesPair, SecondQuantizedOperator, *KINDS.values()]:
            attempt(res, f"{cls.__name__}({t} indices, {u} indices)", lambda: cls(TYPES[t](['a0']), TYPES[u](['a1'])), t == u)
        attempt(res, f"Term of {t} tensor and {u} operator", lambda: Term([HamiltonianTensor(['g1'], ['g0'], t)],
                SecondQuantizedOperator(['g0'], ['g1'], u)), t == u)
        attempt(res, f"Term of {t} and {u} tensors", lambda: Term([HamiltonianTensor(['g1'], ['g0'], t),
                HamiltonianTensor(['g0'], ['g1'], u)], SecondQuantizedOperator([], [], t)), t == u)
    for kind, names in (('L', ('cumulant', 'lambda', 'L')), ('E', ('hole_density', 'eta', 'C')),
                        ('K', ('Kronecker', 'delta', 'K')), ('T', ('cluster_amplitude', 'T', 't')),
                        ('H', ('HamiltonianTensor', 'Hamiltonian', 'H'))):
        for nm in names:
            attempt(res, f"make_tensor({nm})", lambda: Tensor.make_tensor(nm, ['a0'], ['a1']), True,
                    lambda x: None if type(x) is KINDS[kind] else f"is a {type(x).__name__}")


def run_long(res, case):
    """ Long index lists, tensors of high rank and long terms with one fault at every place. """
    t, n = case['type'], case['n']
    cls = TYPES[t]
    sp = {'so': 'gphvca', 'si': 'gGaAvC', 'sa': 'gavhpc'}[t]
    names = [f"{sp[k % 6]}{k // 6}" for k in range(n)]
    other = [f"{sp[k % 6]}{k // 6 + 20}" for k in range(n)]
    same = lambda w: lambda i: None if [conv.idx(j) for j in i] == list(map(split, w)) else f"content {i}"
    faults = [(names, True)]
    for i in range(n):
        for j in range(n):
            if i != j:
                faults.append((names[:i] + [names[j]] + names[i + 1:], False))
        for x in ['q1', '', 'g', '1g'] + (['G0'] if t == 'so' else []):
            faults.append((names[:i] + [x] + names[i + 1:], False))
    for w, ok in faults:
        attempt(res, f"{cls.__name__}({w})", lambda: cls(w), ok, same(w))
        if ok or '' not in w:
            attempt(res, f"{cls.__name__}({','.join(w)!r})", lambda: cls(','.join(w)), ok, same(w))
        attempt(res, f"operator({w}, {other})", lambda: SecondQuantizedOperator(w, other, t), ok)
        attempt(res, f"tensor({other}, {w})", lambda: Tensor(other, w, t), ok)
        if n <= 8:
            attempt(res, f"Hamiltonian({other}, {w})", lambda: HamiltonianTensor(other, w, t), ok)
    # amplitudes: one index on the wrong side of the hole/particle division
    hs = [f"{'hca'[k % 3]}{k}" for k in range(n)]
    ps = [f"{'pva'[k % 3]}{k + n}" for k in range(n)]
    attempt(res, f"amplitude({hs}, {ps})", lambda: ClusterAmplitude(hs, ps, t), True)
    for i in range(n):
        for x in ('v99', 'p98'):
            w = hs[:i] + [x] + hs[i + 1:]
            attempt(res, f"amplitude({w}, {ps})", lambda: ClusterAmplitude(w, ps, t), False)
            attempt(res, f"amplitude({ps}, {w})", lambda: ClusterAmplitude(ps, w, t), False)
    if t == 'si':
        for i in range(n):
            w = ps[:i] + [ps[i].upper()] + ps[i + 1:]
            attempt(res, f"amplitude({hs}, {w})", lambda: ClusterAmplitude(hs, w, t), False)
    # a closed ring of n one-body tensors and an open chain; one index replaced
    ring = [([names[k].lower()], [names[(k + 1) % n].lower()]) for k in range(n)] if t != 'si' else \
        [([f"a{k}"], [f"a{(k + 1) % n}"]) for k in range(n)]
    mk = lambda ts, c, a: Term([Tensor(u, l, t) for u, l in ts], SecondQuantizedOperator(c, a, t), 2.0)
    attempt(res, f"ring of {n}", lambda: mk(ring, [], []), True)
    chain = ring[1:]
    attempt(res, f"chain of {n}", lambda: mk(chain, ring[0][0], ring[0][1]), True)
    for i in range(n):
        for x in ('a77', ring[(i + 2) % n][0][0]):
            ts = ring[:i] + [([x], ring[i][1])] + ring[i + 1:]
            attempt(res, f"broken ring {ts}", lambda: mk(ts, [], []), False)
    for x, y in ((['a77'], ring[0][1]), (ring[0][0], ['a77']), (ring[0][0], [])):
        attempt(res, f"broken chain {chain} with operator {x} {y}", lambda: mk(chain, x, y), False)


def run_term(res, case):
    """ Lists of tensors over a few labels; also repeated labels on one tensor (diagonal). """
    lab = ['g0', 'h0', 'g1', 'a2']
    ops = [((), ())] + [((a,), (b,)) for a in lab[:3] for b in lab[:3]] + [(('g0', 'h0'), ('g1', 'a2')),
                                                                   (('g0', 'h0'), ('g0', 'h0')), (('g0',), ()), ((), ('h0',)),
                                                                   (('g0', 'h0'), ('h0', 'g1'))]
    one = [((a,), (b,)) for a in lab for b in lab]
    two = [(('g0', 'h0'), ('g1', 'a2')), (('g0', 'h0'), ('g0', 'h0')), (('g0', 'h0'), ('h0', 'g1')), (('g1', 'a2'), ('g0', 'h0')),
           (('h0', 'g0'), ('g0', 'a2'))]
    pool = one + two
    n = case['n']
    firsts = ops[case['first']:] if case['first'] == 11 else ops[case['first']:case['first'] + 1]
    for cre, ann in firsts:
        for ts in product(pool if n < 3 or case['deep'] else one[:11] + two[:2], repeat=n):
            cnt = Counter(cre + ann)
            diag = set(cre) & set(ann)
            for u, l in ts:
                cnt.update(u + l)
                diag |= set(u) & set(l)
            ok = all(v == 2 if k not in diag else v % 2 == 0 for k, v in cnt.items())

            def content(t):
                if sorted(conv.plain_tensor(x)[2:] for x in t.list_of_tensors) != \
                        sorted((tuple(map(split, u)), tuple(map(split, l))) for u, l in ts):
                    return f"tensors {t}"
                if conv.plain(t)[2:4] != (tuple(map(split, cre)), tuple(map(split, ann))) or t.coeff != -0.5:
                    return f"operator or coefficient {t}"
                if {conv.idx(i) for i in t.indices_set} != set(map(split, cnt)) or \
                        {conv.idx(i) for i in t.diagonal_indices} != set(map(split, diag)):
                    return f"index sets {t.indices_set} {t.diagonal_indices}"
            attempt(res, f"Term({ts}, {cre}, {ann})",
                    lambda: Term([Tensor(list(u), list(l)) if k % 2 else HamiltonianTensor(list(u), list(l)) if len(u) == len(l)
                                  else Tensor(list(u), list(l)) for k, (u, l) in enumerate(ts)],
                                 SecondQuantizedOperator(list(cre), list(ann)), -0.5), ok, content)


def run_case(case):
    res = Result()
    do = case['do']
    if do == 'index':
        run_index(res, case)
    elif do == 'nonstring':
        run_nonstring(res)
    elif do == 'indices':
        run_indices(res, case)
    elif do == 'tensor':
        run_tensor(res, case)
    elif do == 'mixed':
        run_mixed(res)
    elif do == 'long':
        run_long(res, case)
    else:
        run_term(res, case)
    res.outcomes.add((do, res.transitions > 0, res.traces > 0))
    if case.get('first') in ('g0', 'a', 0):
        res.sample = {'case': case, 'accepted': res.transitions, 'rejected': res.traces}
    return res


if __name__ == '__main__':
    harness.main(globals())
