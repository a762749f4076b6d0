""" C04: simplification and canonicalization never change the value of a term. """
import re
from fractions import Fraction
from itertools import product

import _path  # noqa
from mc import harness, conv, terms
from mc.harness import Result
from mc.sem import Model, clean, diff_keys

PID = 'C04'
LEVEL = 'model_checking'
RULE = ("every index connection x space word x label numbering of the listed tensor shapes, for every combination of "
        "the options; states = terms, transitions = simplification/canonicalization calls on the real code, traces = "
        "values compared in the finite-field model")
ASSUMPTIONS = ["deltas and densities do not share an index and are not identically zero (as contraction produces them)",
               "tensors Hermitian iff the option says so; all-active amplitudes are zero iff they may be removed"]

# (tensor shapes, operator, alphabet, numbering styles, any side, canonical pairings only)
QUICK = [
    ('H1 T1', (0, 0), 'gphvca', (0, 1), True, False), ('H1 T1', (1, 1), 'gphvca', (0,), True, False),
    ('H1', (1, 1), 'gphvca', (0, 1), True, False), ('H2', (2, 2), 'gphvca', (0,), False, True),
    ('H2', (2, 2), 'ghv', (1,), False, False), ('T2', (2, 2), 'hpa', (0, 1), False, False),
    ('T2', (2, 2), 'hpvca', (2,), True, True),
    ('H1 L1', (0, 0), 'gphvca', (0, 1), True, False), ('H1 L1', (1, 1), 'gphvca', (0,), False, False),
    ('H1 K1', (1, 1), 'gphvca', (0, 1), True, False), ('T1 K1', (1, 1), 'gphvca', (0, 1), True, False),
    ('T1 L1', (1, 1), 'gphvca', (2,), True, False), ('H1 E1', (1, 1), 'gphvca', (0,), False, False),
    ('H1 T1 K1', (1, 1), 'gphac', (0,), True, True), ('H1 T1 L1', (1, 1), 'gphac', (1,), True, True),
    ('H2 T2', (0, 0), 'hpav', (0,), True, True), ('H2 T2', (0, 0), 'ghpvca', (1,), False, True),
    ('H2 T2', (0, 0), 'cva', (2,), False, False),
    ('H2 L2', (0, 0), 'gha', (0,), True, True), ('H2 L2', (0, 0), 'ap', (1,), False, False),
    ('T2 L2', (1, 1), 'hpa', (0,), False, True), ('H2 L1 L1', (0, 0), 'gha', (0,), True, True),
    ('H2 K1', (2, 2), 'ghp', (0,), False, True), ('H2 T1 K1', (1, 1), 'hpa', (0,), False, True),
    ('H2 T1 L1', (1, 1), 'hpa', (1,), False, True), ('T1 T1 H2', (0, 0), 'hpvc', (0,), True, True),
    ('T1 T1 L2', (0, 0), 'hpa', (0,), True, True), ('H2 T2 L1', (1, 1), 'ha', (0,), False, True),
    ('H2 T2 K1', (1, 1), 'pa', (0,), False, True), ('H2 T2', (2, 2), 'cv', (0,), False, True),
    ('H2 T2', (1, 1), 'hv', (1,), False, True), ('T2 T2', (0, 0), 'hpva', (0,), True, False),
    ('X1 X1', (0, 0), 'gha', (0,), True, False), ('X2 X1', (1, 1), 'gv', (0,), True, True),
    ('H3 T2', (1, 1), 'v', (0,), False, True), ('T3', (3, 3), 'ca', (0,), True, True),
    ('H2 T1 T1 L1', (0, 0), 'hp', (0,), False, True), ('T2 L1 L1', (0, 0), 'ha', (0,), True, True),
    ('T2 K1 K1', (2, 2), 'ph', (0,), True, True), ('H1 K1 K1', (1, 1), 'gpha', (0,), True, True),
    ('H2 L3 T1', (0, 0), 'ha', (0,), False, True),
    ('H1', (2, 0), 'gpha', (0,), True, False), ('T1', (0, 2), 'hpca', (1,), True, False),
    ('T2', (3, 1), 'hpa', (0,), True, False), ('T2', (1, 3), 'hpa', (2,), True, True),
    ('H2', (4, 0), 'gv', (1,), True, False), ('X2 K1', (3, 1), 'gp', (0,), True, True),
    ('H2 T1', (0, 2), 'hp', (0,), True, True), ('T2 T2', (3, 1), 'v', (0,), True, True),
    ('H1 K1 L1', (1, 1), 'gphvca', (0,), True, False), ('T1 K1 L1', (1, 1), 'gphvca', (1,), True, False),
    ('T2 K1 L1', (1, 1), 'hpa', (0,), True, True), ('T2 K1 L2', (1, 1), 'hp', (0,), True, True),
    ('H2 K1 K1 L1', (1, 1), 'hp', (0,), True, True), ('T1 T1 K1 L1', (0, 0), 'hpa', (0,), True, True),
]
DEEP = QUICK + [
    ('H2', (2, 2), 'gphvca', (1,), True, True), ('H1 T1 K1', (1, 1), 'gphvca', (1,), True, False),
    ('H1 T1 L1', (1, 1), 'gphvca', (0,), True, False), ('H2 T2', (0, 0), 'gphvca', (0,), True, True),
    ('H2 T2', (0, 0), 'ghvca', (1,), True, False), ('H2 L2', (0, 0), 'gpha', (2,), True, False),
    ('H2 L1 L1', (0, 0), 'gphca', (1,), True, True), ('H2 T2', (2, 2), 'cva', (0,), False, True),
    ('H2 T2', (1, 1), 'hpv', (1,), True, True), ('H2 T1 T1', (1, 1), 'hpa', (0,), False, True),
    ('H2 T2 L1', (1, 1), 'hpa', (0,), False, True), ('H2 T2 L2', (0, 0), 'ha', (0,), False, True),
    ('H2 T1 T1 L1', (0, 0), 'hpa', (1,), False, True), ('T2 T2 L1 L1', (0, 0), 'ha', (0,), True, True),
    ('H3 T2', (1, 1), 'cv', (0,), False, True), ('T3', (3, 3), 'cpa', (0,), True, True),
]
SI = [('H1 T1', (1, 1), 'hpHP', (0,)), ('H2', (2, 2), 'gaGA', (1,)), ('H2 T2', (0, 0), 'hpHP', (0,)),
      ('T1 K1', (1, 1), 'hpaHPA', (0,)), ('T1 L1', (1, 1), 'hcaHCA', (1,)), ('H2 L1', (1, 1), 'gaGA', (0,)),
      ('H2 L2', (0, 0), 'aA', (0,)), ('T2 L1 L1', (0, 0), 'hH', (0,)), ('H1 K1 L1', (1, 1), 'gphaGPHA', (0,)),
      ('T1 K1 L1', (1, 1), 'hpcaHPCA', (1,)), ('T2 K1 L1', (1, 1), 'hpHP', (0,)), ('T2 K1 L2', (1, 1), 'hP', (0,))]
SA = [('H1 T1', (1, 1), 'ghp', (0, 1)), ('H2', (2, 2), 'gha', (0, 1)), ('H2 T2', (0, 0), 'hpva', (0,)),
      ('H2 T1', (1, 1), 'hpa', (1,)), ('T2 L1', (1, 1), 'hca', (0,)), ('H2 L2', (0, 0), 'ga', (0,)),
      ('T2 K1', (2, 2), 'hpa', (0,)), ('T2 T2', (0, 0), 'hpa', (1,)), ('H2 T2', (1, 1), 'cv', (0,))]

MODELS = {}


def model(mode, herm, t_active, size):
    k = (mode, herm, t_active, size)
    if k not in MODELS:
        MODELS[k] = Model(size, hermitian=herm, t_active=t_active, spin=(mode == 'si'), seed='c04')
    return MODELS[k]


def size_for(text, mode):
    if mode == 'si':
        return (1, 2, 1)
    if '3' in text:
        return (2, 3, 1) if 'L3' in text else (3, 2, 3) if 'T3' in text else (2, 2, 2)
    return (2, 2, 2)


def fams(tier):
    out = [(t, op, al, st, side, rep, 'so') for t, op, al, st, side, rep in (DEEP if tier == 'thorough' else QUICK)]
    out += [(t, op, al, st, False, True, 'si') for t, op, al, st in SI]
    out += [(t, op, al, st, True, True, 'sa') for t, op, al, st in SA]
    return out


def cases(tier):
    out = []
    for text, op, al, styles, side, rep, mode in fams(tier):
        ts = terms.shape(text)
        if rep:
            ms = list(terms.canonical_pairings(text, op, side))
        else:
            ms = [m for m in terms.pairings(terms.slots_of(ts, op), terms.not_self if side else terms.upper_lower)
                  if not terms.density_chain(ts, m)]
        n = len(al) ** (len(ms[0]) if ms else 0) * len(styles)
        per = max(1, 400 // n)
        for k in range(0, len(ms), per):
            # a long word list is cut by the space of the first index
            if n > 1500:
                for s in al:
                    out.append({'text': text, 'op': op, 'al': al, 'styles': styles, 'mode': mode, 'ms': ms[k:k + per],
                                'first': s})
            else:
                out.append({'text': text, 'op': op, 'al': al, 'styles': styles, 'mode': mode, 'ms': ms[k:k + per]})
    for k in range(len(diagonal())):
        out.append({'diag': k})
    out.sort(key=lambda c: -len(c.get('ms', ())) * len(c.get('al', '')) ** (len(c['ms'][0]) if c.get('ms') else 0))
    return out


def diagonal():
    """ Terms with diagonal indices (repeated label on one tensor or operator), as templates over spaces. """
    return [
        (['H x0 x0'], 'x0', 'x0', 'x'), (['H x0 x0', 'T y0 x0'], 'x0', 'y0', 'xy'),
        (['H x0 x0', 'T y0 x0', 'H y0 y0'], 'x0', 'y0', 'xy'),
        (['H x0 x0', 'L x0 x0'], '', '', 'x'), (['H x0 x0', 'L x0 z0', 'T z0 y0'], 'y0', 'x0', 'xyz'),
        (['H x0 x0', 'K x0 z0', 'T z0 y0'], 'y0', 'x0', 'xyz'), (['H x0 x0', 'K z0 x0', 'H y0 z0'], 'x0', 'y0', 'xyz'),
        (['H x0,y0 x0,y0', 'L y0 y0'], 'x0', 'x0', 'xy'), (['H x0,y0 x0,y0', 'L z0 y0', 'H y0 z0'], 'x0', 'x0', 'xyz'),
        (['T y0,z0 x0,w0', 'H x0 x0'], 'x0,w0', 'y0,z0', 'xyzw'),
        (['H y0,x0 x0,z0'], 'z0,x0', 'x0,y0', 'xyz'),
        (['H x0 x0', 'H x1 x1', 'T y0,y1 x0,x1'], 'x0,x1', 'y0,y1', 'xy'),
    ]


COEFF = [Fraction(3, 7), Fraction(-1, 2 ** 24), Fraction(-5), Fraction(1, 576)]
OPTS = [(core, act, herm) for core in (True, False) for act in (True, False) for herm in (True, False)]


def value(M, t):
    if t[4] == 'sa':
        return clean(M.eval_term(t, as_array=True))
    return M.eval_terms([t])


def explore(res, t, size, opts, n):
    core, act, herm = opts
    M = model(t[4], herm, not act, size)
    v0 = value(M, t)
    res.states += 1
    res.outcomes.add(hash((len(v0), t[2:4])))
    calls = [('canonicalize', lambda x: x.canonicalize(core, act, herm)), ('simplify', None),
             ('canonicalize_simple', lambda x: x.canonicalize_simple(core, act))]
    if t[4] == 'sa':
        calls = calls[:2]       # canonicalize_simple re-sorts antisymmetric indices only
    for name, f in calls if n % 3 == 0 else calls[:1]:
        x = conv.real(t)
        if f is None:
            x.simplify(core, act)
            got = conv.plain(x)
        else:
            y = f(x)
            got = conv.plain(y)
            # the argument may be simplified in place but keeps its value
            if name == 'canonicalize' and n % 3 == 1:
                v = value(M, conv.plain(x))
                if v != v0:
                    res.fail(f"{conv.show(t)} changed value in place ({name}, options {opts}): {conv.plain(x)}")
        res.transitions += 1
        v = value(M, got)
        res.traces += 1
        if v != v0:
            res.fail(f"{name}{opts} of {conv.show(t)} gives {conv.show(got)}: {diff_keys(v, v0)} (key, got, expected)")
        if got[0] == 0 and (got[1] or got[2] or got[3]):
            res.fail(f"{name}{opts} of {conv.show(t)}: a zero term that is not empty: {conv.show(got)}")
        if res.sample is None:
            res.sample = {'term': conv.show(t), name: conv.show(got), 'options': opts}


def run_case(case):
    res = Result()
    n = 0
    if 'diag' in case:
        ts, cre, ann, letters = diagonal()[case['diag']]
        for w in product('gphvca', repeat=len(letters)):
            m = dict(zip(letters, w))
            # every letter gets its own numbers, so that equal spaces never merge two indices
            f = lambda s: re.sub(r'([xyzw])(\d)', lambda k: m[k[1]] + str(2 * letters.index(k[1]) + int(k[2])), s)
            t = conv.pt('3/7', [x[0] + f(x[1:]) for x in ts], f(cre), f(ann))
            tt = [(k, nm, len(u), len(l)) for k, nm, u, l in t[1]]
            if not terms.spaces_ok(tt, [[s for s, _ in u] for _, _, u, _ in t[1]],
                                   [[s for s, _ in l] for _, _, _, l in t[1]]):
                continue
            if not consistent(t):
                continue
            for core, act, herm in OPTS[::2]:
                M = model('so', herm, not act, (2, 2, 2))
                v0 = value(M, t)
                res.states += 1
                for name in ('simplify', 'canonicalize_simple'):
                    x = conv.real(t)
                    y = x.canonicalize_simple(core, act) if name != 'simplify' else (x.simplify(core, act), x)[1]
                    got = conv.plain(y)
                    res.transitions += 1
                    res.traces += 1
                    if value(M, got) != v0:
                        res.fail(f"{name} of {conv.show(t)} gives {conv.show(got)}: a different value")
        return res
    ts = terms.shape(case['text'])
    size = size_for(case['text'], case['mode'])
    ms = [[(tuple(a), tuple(b)) for a, b in m] for m in case['ms']]
    for m in ms:
        for w in product(case['al'], repeat=len(m)):
            if 'first' in case and w[0] != case['first']:
                continue
            for st in case['styles']:
                t = terms.build(ts, tuple(case['op']), m, w, st, COEFF[n % 4], case['mode'])
                if t is None:
                    continue
                n += 1
                explore(res, t, size, OPTS[0], n)
                explore(res, t, size, OPTS[1 + n % 7], n)
    return res


def consistent(t):
    """ The spaces that meet in one diagonal index have a common part. """
    from mc.sem import ELEM
    part = {}
    diag = set()
    for k, nm, u, l in t[1]:
        diag |= set(u) & set(l)
    diag |= set(t[2]) & set(t[3])
    for i in diag:
        part[i] = set(ELEM[i[0]])
    for k, nm, u, l in t[1]:
        if k in 'KL' and len(u) == 1:
            i, j = u[0], l[0]
            common = set(ELEM[i[0]]) & set(ELEM[j[0]])
            if k == 'L':
                common &= set('ca')
            for x in (i, j):
                if x in part:
                    part[x] &= common
    return all(part.values())


if __name__ == '__main__':
    harness.main(globals())
