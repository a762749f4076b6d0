""" C10: comparison, equality and hashing of all objects are consistent. """
from fractions import Fraction
from itertools import permutations, product

import _path  # noqa
from mc import harness, conv
from mc.harness import Result
from dsrg_generator.Index import Index
from dsrg_generator.Indices import Indices
from dsrg_generator.IndicesPair import IndicesPair
from dsrg_generator.mo_space import MOSpaceCounter
from SpaceCounter import SpaceCounter

PID = 'C10'
LEVEL = 'model_checking'
RULE = ("all ordered pairs and triples of each object alphabet, each object built twice; all orders of the listed "
        "subsets for sorting; all pairs of incompatible kinds for every comparison operator. states = objects, "
        "transitions = comparisons, traces = pairs/triples/orders checked")
ASSUMPTIONS = ["term coefficients that differ do so by more than the equality tolerance of 1e-15"]

OPS = ('__lt__', '__le__', '__eq__', '__ne__', '__gt__', '__ge__')


def words(al, lengths):
    for n in lengths:
        for w in product(al, repeat=n):
            if len(set(w)) == n:
                yield list(w)


def alphabet(kind, deep):
    """ list of (key, function creating a fresh object); equal keys mean equal objects """
    out = []
    if kind == 'index':
        for s, n in product('gphvcaGPHVCA', (0, 1, 2, 9, 10, 11)):
            out.append(((s, n), lambda s=s, n=n: Index(f'{s}{n}')))
        for s in 'gA':
            out.append(((s, 1), lambda s=s: Index(f'{s}01')))
            out.append(((s, 10), lambda s=s: Index(f'{s}0010')))
    elif kind.startswith('indices'):
        mode = kind[-2:]
        al = ['g0', 'a0', 'a1', 'v10'] if mode != 'si' else ['g0', 'G0', 'a1', 'A1']
        for w in words(al, range(0, 4)):
            out.append((tuple(w), lambda w=w: Indices.make_indices(list(w), mode)))
    elif kind.startswith('pair') or kind.startswith('op'):
        mode = kind[-2:]
        al = ['g0', 'a0', 'v10'] if mode != 'si' else ['g0', 'G0', 'A1']
        cls = IndicesPair if kind.startswith('pair') else conv.SecondQuantizedOperator
        ws = list(words(al, range(0, 3)))
        for u, l in product(ws, ws):
            out.append(((tuple(u), tuple(l)),
                        lambda u=u, l=l: cls(Indices.make_indices(list(u), mode), Indices.make_indices(list(l), mode))))
    elif kind.startswith('tensor'):
        mode = kind[-2:]
        al = ['a0', 'a1', 'c2'] if mode != 'si' else ['a0', 'A0', 'a1']
        for k, nm in (('H', 'H'), ('H', 'F'), ('T', 'T'), ('T', 'S'), ('L', 'L'), ('K', 'K'), ('E', 'C'), ('X', 'X')):
            for n in (1, 2) if k not in 'KE' else (1,):
                for u, l in product(words(al, [n]), repeat=2):
                    if sum(x[0].isupper() for x in u) != sum(x[0].isupper() for x in l):
                        continue
                    p = (k, nm, conv.P_(','.join(u)), conv.P_(','.join(l)))
                    out.append((p, lambda p=p: conv.real_tensor(p, mode)))
        out = out if deep else out[::2]
    elif kind.startswith('term'):
        mode = kind[-2:]
        forms = [(['H g0 g1'], 'g1', 'g0'), (['H g1 g0'], 'g0', 'g1'), (['H a0 g0'], 'g0', 'a0'),
                 (['T c0 v0'], 'v0', 'c0'), (['T:S c0 v0'], 'v0', 'c0'), (['H v0 c0', 'T c0 v0'], '', ''),
                 (['H a0 a1', 'L a1 a0'], '', ''), (['H v0,v1 c0,c1', 'T c0,c1 v0,v1'], '', ''), ([], '', ''),
                 (['H v0 c0', 'T c0 v1'], 'v1', 'v0'), (['H v0,v1 c0,c1', 'T c0 v0', 'T c1 v1'], '', ''),
                 (['H g0,g1 g2,g3'], 'g2,g3', 'g0,g1'), (['H g0,g1 g2,g3'], 'g3,g2', 'g0,g1')]
        for (ts, c, a), co in product(forms, ('1', '-1', '1/2', '-1/2', '1/3', '0', '2')):
            p = conv.pt(co, ts, c, a, mode)
            out.append((p, lambda p=p: conv.real(p)))
    elif kind == 'cost':
        for n in product(range(3), repeat=3):
            d = {k: v for k, v in zip('cav', n) if v}
            out.append((tuple(sorted(d.items())), lambda d=d: MOSpaceCounter(d)))
        for a, b, x, y in product('cvhpg', 'aCVH', (1, 2), (1, 3)):
            d = {}
            for k, v in ((a, x), (b.lower(), y)):
                d[k] = d.get(k, 0) + v
            out.append((tuple(sorted(d.items())), lambda a=a, b=b, x=x, y=y: MOSpaceCounter({a: x, b: y})))
    elif kind == 'space':
        o = conv.P_
        ts = [conv.real_tensor(('X', 'A', o(u), o(l))) for u, l in
              [('g0', 'g1'), ('g1', 'g0'), ('g0,a0', 'g1,v0'), ('g1,v0', 'g0,a0'), ('a0,v1', 'c0,h1'),
               ('c0,h1', 'a0,v1'), ('v0,v1', 'c0,a0'), ('c0,a0', 'v0,v1'), ('g0,g1,a0', 'v0,v1,c0'),
               ('v0,v1,c0', 'g0,g1,a0'), ('v1', 'g0')]]
        for x, y in product(ts, ts):
            ku = sorted(i[0] for i in set(conv.plain_tensor(x)[2]) & set(conv.plain_tensor(y)[3]))
            kl = sorted(i[0] for i in set(conv.plain_tensor(x)[3]) & set(conv.plain_tensor(y)[2]))
            out.append(((tuple(ku), tuple(kl)), lambda x=x, y=y: SpaceCounter(x, y)))
    return out


KINDS = ['index', 'indices so', 'indices si', 'indices sa', 'pair so', 'pair si', 'pair sa', 'op so', 'op si', 'op sa',
         'tensor so', 'tensor si', 'tensor sa', 'term so', 'term sa', 'cost', 'space']
WEAK = {'cost'}
UNHASHABLE = {'cost', 'space'}


def cases(tier):
    out = [{'kind': k, 'deep': tier == 'thorough'} for k in KINDS]
    out.append({'cross': True})
    out.append({'rounding': True})
    return out


# the same number computed in different ways: equal terms, whatever their last bit
SAME = [(0.1 + 0.2, 0.3), (1 / 3 + 1 / 3 + 1 / 3, 1.0), (1 / 36 + 1 / 36, 1 / 18), (0.1 * 3, 0.3), (1 / 49 * 49, 1.0),
        (1 / 12 + 1 / 12 + 1 / 12, 0.25), (1 - 0.9, 0.1), (sum([0.1] * 10), 1.0), (-1 / 6 - 1 / 6, -1 / 3)]


def rounding(res):
    forms = [p for p, _ in alphabet('term so', False) if p[0] == 1] + [p for p, _ in alphabet('term sa', False) if p[0] == 1]
    for p, (x, y) in product(forms, SAME):
        a, b = conv.real(p), conv.real(p)
        a.coeff, b.coeff = x, y
        c = conv.real(p)
        c.coeff = y * 1.01
        res.states += 1
        res.transitions += 8
        res.traces += 1
        if not (a == b and b == a) or a != b or b != a:
            res.fail(f"terms {a!r} and {b!r} with coefficients {x!r} and {y!r} are not equal")
        if hash(a) != hash(b) or len({a, b}) != 1:
            res.fail(f"equal terms {a!r} and {b!r} (coefficients {x!r} and {y!r}) have different hashes")
        if a == c or not a != c:
            res.fail(f"terms with coefficients {x!r} and {c.coeff!r} are equal")
    return res


def table(res, kind, al):
    n = len(al)
    A = [f() for _, f in al]
    B = [f() for _, f in al]
    keys = [k for k, _ in al]
    lt = [[False] * n for _ in range(n)]
    for i in range(n):
        for j in range(n):
            a, b = A[i], B[j]
            r = {o: getattr(a, o)(b) for o in OPS}
            back = b < a
            res.transitions += 7
            res.traces += 1
            lt[i][j] = r['__lt__']
            same = keys[i] == keys[j]
            say = lambda m: res.fail(f"{kind}: {A[i]!r} and {B[j]!r}: {m}; {r}, reversed < {back}")
            if not all(isinstance(x, bool) for x in r.values()):
                say("comparison does not give a truth value")
            if r['__eq__'] != same:
                say(f"== is {r['__eq__']} but the objects are {'the same' if same else 'different'}")
            if r['__ne__'] == r['__eq__']:
                say("!= is not the negation of ==")
            if r['__gt__'] != back:
                say("> is not the converse of <")
            if r['__le__'] == r['__gt__'] or r['__ge__'] == r['__lt__']:
                say("<= / >= are not the negations of > / <")
            if r['__lt__'] and r['__gt__']:
                say("< and > both hold")
            if kind not in WEAK and (r['__lt__'], r['__eq__'], r['__gt__']).count(True) != 1:
                say("not exactly one of <, ==, > holds")
            if r['__eq__'] and (r['__lt__'] or r['__gt__']):
                say("equal objects are ordered")
            if kind.startswith('term') and a.almost_equal(b) != (keys[i][1:] == keys[j][1:]):
                say(f"almost_equal is {a.almost_equal(b)}")
            if kind not in UNHASHABLE and same and hash(a) != hash(b):
                say("equal objects have different hashes")
    return lt, A


def run_case(case):
    res = Result()
    if case.get('cross'):
        return cross(res)
    if case.get('rounding'):
        return rounding(res)
    kind = case['kind']
    al = alphabet(kind, case['deep'])
    res.states = len(al)
    lt, A = table(res, kind.split()[0], al)
    n = len(al)
    rng = range(n)
    # transitivity of < and of "not comparable" over all triples
    rows = [sum(1 << j for j in rng if lt[i][j]) for i in rng]
    inc = [sum(1 << j for j in rng if not lt[i][j] and not lt[j][i]) for i in rng]
    for i in rng:
        for j in rng:
            res.traces += n
            if lt[i][j] and rows[j] & ~rows[i]:
                k = next(k for k in rng if rows[j] >> k & 1 and not rows[i] >> k & 1)
                res.fail(f"{kind}: not transitive: {A[i]!r} < {A[j]!r} < {A[k]!r}")
            if not lt[i][j] and not lt[j][i] and inc[j] & ~inc[i]:
                res.fail(f"{kind}: ties are not transitive: {A[i]!r}, {A[j]!r}")
    # sorting is independent of the initial order
    if kind != 'cost':
        step = max(1, n // 10)
        for s in range(step):
            sub = [al[k][1]() for k in range(s, n, step)][:4 if n > 200 and not case['deep'] else 5]
            ref = None
            for p in permutations(range(len(sub))):
                got = sorted(sub[k] for k in p)
                ref = ref or got
                res.traces += 1
                if any(a != b for a, b in zip(got, ref)):
                    res.fail(f"{kind}: sorting depends on the initial order: {got} {ref}")
    # sets and dictionaries see equal objects as one
    if kind.split()[0] not in UNHASHABLE:
        s = {f() for _, f in al} | {f() for _, f in al}
        if len(s) != len({k for k, _ in al}):
            res.fail(f"{kind}: a set of {len({k for k, _ in al})} different objects has {len(s)} elements")
    res.outcomes.add(sum(r.bit_count() if hasattr(r, 'bit_count') else bin(r).count('1') for r in rows))
    res.sample = {'kind': kind, 'objects': n}
    return res


def cross(res):
    objs = {'index': Index('g0'), 'indices-so': Indices.make_indices('g0', 'so'),
            'indices-si': Indices.make_indices('g0', 'si'), 'indices-sa': Indices.make_indices('g0', 'sa'),
            'tensor-so': conv.real_tensor(('H', 'H', (('g', 0),), (('g', 1),)), 'so'),
            'tensor-si': conv.real_tensor(('H', 'H', (('g', 0),), (('g', 1),)), 'si'),
            'op-so': conv.real_op((('g', 0),), (('g', 1),), 'so'), 'op-si': conv.real_op((('g', 0),), (('g', 1),), 'si'),
            'term': conv.real(conv.pt(1, ['H g0 g1'], 'g1', 'g0')), 'cost': MOSpaceCounter({'c': 1}),
            'space': SpaceCounter(*[conv.real_tensor(('H', 'H', (('g', 0),), (('g', 1),)))] * 2),
            'int': 1, 'str': 'g0', 'none': None, 'list': ['g0'], 'tuple': ('g0',)}
    for (n1, a), (n2, b) in product(objs.items(), repeat=2):
        if n1 in ('int', 'str', 'none', 'list', 'tuple') or n1 == n2:
            continue
        for o in OPS:
            res.states += 1
            res.transitions += 1
            try:
                got = getattr(a, o)(b)
            except TypeError:
                res.traces += 1
                continue
            except Exception as e:
                res.fail(f"{n1} {o} {n2} raises {e!r} instead of a type error")
                continue
            res.fail(f"{n1} {o} {n2} gives {got!r} instead of a type error")
    return res


if __name__ == '__main__':
    harness.main(globals())
