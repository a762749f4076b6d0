""" C05: equivalent terms have one canonical form. """
from collections import deque
from fractions import Fraction
from itertools import permutations, product

import _path  # noqa
from mc import harness, conv, terms
from mc.harness import Result

PID = 'C05'
LEVEL = 'model_checking'
RULE = ("seed terms (every connection x space word of the listed shapes) -> breadth-first search of the complete orbit "
        "under slot transpositions, upper/lower exchange and tensor reordering, labels normalised by first "
        "appearance; states = orbit members, transitions = rewrites, traces = real canonicalizations compared "
        "(every orbit member up to the cap, in each listed numbering)")
ASSUMPTIONS = ["terms as in C04 (deltas and densities do not share an index)",
               "spin-adapted operators carry no symmetry of their own (as declared by the system)"]

# shapes, operator, alphabet, any side
QUICK = [
    ('H1', (1, 1), 'gphvca', True), ('H1 T1', (0, 0), 'gphvca', True), ('H1 T1', (1, 1), 'ghpc', True),
    ('H2', (2, 2), 'ghva', True), ('T2', (2, 2), 'hpa', True), ('H2 T2', (0, 0), 'hpa', True),
    ('T2 T2', (0, 0), 'hpa', True), ('T1 T1', (0, 0), 'hpcva', True), ('H2 T1 T1', (0, 0), 'hpa', False),
    ('H2 T1 T1', (1, 1), 'hp', False), ('H2 T2', (1, 1), 'hp', False), ('H2 T2', (2, 2), 'p', False),
    ('H1 L1', (0, 0), 'gpha', True), ('H2 L1 L1', (0, 0), 'gha', True), ('H2 L2', (0, 0), 'ga', True),
    ('T2 L2', (1, 1), 'ha', False), ('T2 L1 L1', (0, 0), 'ha', True), ('H1 K1', (1, 1), 'ghpa', True),
    ('T1 K1', (1, 1), 'hpa', True), ('H2 K1', (2, 2), 'gp', False), ('T1 T1 T1 L1', (1, 1), 'h', False),
    ('T2 T2 L1', (1, 1), 'h', False), ('T2 T2 L2', (0, 0), 'a', False), ('T1 T1 L2', (0, 0), 'ha', True),
    ('T3', (3, 3), 'c', True), ('T3 T2', (1, 1), 'v', False), ('T2 T2 T1', (1, 1), 'v', False),
    ('H1 S1', (0, 0), 'gphvca', True), ('T1 S1 H2', (0, 0), 'hp', False), ('T2 S2', (0, 0), 'hpa', True),
    ('X1 X1', (0, 0), 'gha', True), ('X2 X2', (0, 0), 'v', True), ('H2 T2 T1', (1, 1), 'v', False),
    ('L2 T2 T2', (0, 0), 'a', False), ('T2 T2 T2', (0, 0), 'v', True), ('T2 L1 T2', (1, 1), 'h', False), ('T1 T1 L1 L1', (0, 0), 'ha', True), ('H2 H2', (0, 0), 'ga', True),
    ('H1', (2, 0), 'gpha', True), ('T1', (0, 2), 'hpca', True), ('T2', (3, 1), 'hp', True), ('T2', (1, 3), 'hpa', True),
    ('H2', (4, 0), 'gv', True), ('H2 T1', (0, 2), 'hp', True), ('T2 T2', (3, 1), 'v', True),
    ('H4 T4', (0, 0), 'v', False), ('T4', (4, 4), 'c', False), ('H3 T3', (0, 0), 'v', False), ('L4 T4', (0, 0), 'a', False),
]
DEEP = QUICK + [
    ('H2 T2', (0, 0), 'gphvca', True), ('H2 T1 T1', (1, 1), 'hpa', False), ('H2 T2', (1, 1), 'hpa', True),
    ('H2 T2', (2, 2), 'hp', False), ('T2 T2 L1', (1, 1), 'hp', False), ('T2 T2 L2', (0, 0), 'ha', False),
    ('H2 T2 L1', (1, 1), 'ha', False), ('H2 T2 L2', (0, 0), 'ha', False), ('H2 L2', (0, 0), 'gpha', True),
    ('T3', (3, 3), 'cva', False), ('T3 T3', (0, 0), 'v', True), ('H2 T2 T2', (0, 0), 'v', False),
    ('H2 T2 T2', (1, 1), 'c', False), ('T2 T2 T2', (0, 0), 'cv', True),
    ('T2 L3 T1', (0, 0), 'a', False), ('H2 T1 T1 L1', (0, 0), 'hp', False),
]
SI = [('H1 T1', (1, 1), 'hpHP', False), ('T2 T2', (0, 0), 'hpHP', False), ('H2', (2, 2), 'gG', False),
      ('H2 T1 T1', (0, 0), 'pP', False), ('H2 L1', (1, 1), 'gaGA', False), ('T1 S1', (0, 0), 'hpHP', True)]
SA = [('H1 T1', (1, 1), 'ghp', True), ('H2 T2', (0, 0), 'hpa', True), ('T2 T2', (0, 0), 'hpa', True),
      ('H2 T1 T1', (0, 0), 'hp', True), ('H2 T1', (1, 1), 'hp', True), ('T2 T2', (1, 1), 'c', True),
      ('H2 L2', (0, 0), 'a', True), ('H2 L1', (1, 1), 'ga', True), ('T1 S1', (0, 0), 'hp', True),
      ('T3', (3, 3), 'c', False), ('T3 T2', (1, 1), 'v', False)]


COEFF = [Fraction(3, 7), Fraction(-1, 2 ** 24), Fraction(-5), Fraction(1, 576)]


def shape(text):
    return terms.shape(text)


def normal(ts, cre, ann):
    """ Label numbers by first appearance. """
    m, per = {}, {}
    for i in list(cre) + list(ann) + [i for t in ts for i in t[2] + t[3]]:
        if i not in m:
            m[i] = (i[0], per.get(i[0], 0))
            per[i[0]] = m[i][1] + 1
    f = lambda s: tuple(m[i] for i in s)
    return tuple((k, n, f(u), f(l)) for k, n, u, l in ts), f(cre), f(ann)


def swap(s, i):
    return s[:i] + (s[i + 1], s[i]) + s[i + 2:]


def moves(state, mode, herm):
    """ (sign, state): the generators of the equivalence. """
    ts, cre, ann = state
    for n, (k, nm, u, l) in enumerate(ts):
        put = lambda a, b: normal(ts[:n] + ((k, nm, a, b),) + ts[n + 1:], cre, ann)
        if mode == 'sa':
            for i in range(len(u) - 1):
                yield 1, put(swap(u, i), swap(l, i))
        else:
            for i in range(len(u) - 1):
                yield -1, put(swap(u, i), l)
            for i in range(len(l) - 1):
                yield -1, put(u, swap(l, i))
        if herm:
            yield 1, put(l, u)
        if n + 1 < len(ts):
            yield 1, normal(swap(ts, n), cre, ann)
    if mode != 'sa':
        for i in range(len(cre) - 1):
            yield -1, normal(ts, swap(cre, i), ann)
        for i in range(len(ann) - 1):
            yield -1, normal(ts, cre, swap(ann, i))


def orbit(seed, mode, herm, res, limit):
    """ Complete orbit {state: sign}, vanishing flag, complete flag. """
    sign = {seed: 1}
    todo = deque([seed])
    zero = False
    while todo:
        s = todo.popleft()
        for c, t in moves(s, mode, herm):
            res.transitions += 1
            if t in sign:
                zero = zero or sign[t] != c * sign[s]
            else:
                if len(sign) >= limit:
                    return sign, zero, False
                sign[t] = c * sign[s]
                todo.append(t)
    return sign, zero, True


def renumber(state, style):
    """ Another choice of dummy numbers. """
    ts, cre, ann = state
    top = {}
    for i in list(cre) + list(ann) + [i for t in ts for i in t[2] + t[3]]:
        top[i[0]] = max(top.get(i[0], 0), i[1])
    if style == 0:
        g = lambda i: i
    elif style == 1:
        g = lambda i: (i[0], top[i[0]] - i[1] + 3)
    else:
        g = lambda i: (i[0], (5 * i[1] + 2) % 7 + 7 * (i[1] // 7))
    f = lambda s: tuple(g(i) for i in s)
    return tuple((k, n, f(u), f(l)) for k, n, u, l in ts), f(cre), f(ann)


def cases(tier):
    out = []
    deep = tier == 'thorough'
    fams = [(*f, 'so', h) for f in (DEEP if deep else QUICK) for h in (True, False)]
    fams += [(*f, 'si', True) for f in SI] + [(*f, 'sa', h) for f in SA for h in (True, False)]
    for text, op, al, side, mode, herm in fams:
        ms = list(terms.canonical_pairings(text, op, side))
        per = max(1, 40 // len(al) ** len(ms[0]))
        for k in range(0, len(ms), per):
            for first in (al if len(al) ** len(ms[0]) > 100 else (None,)):
                out.append({'text': text, 'op': op, 'al': al, 'mode': mode, 'herm': herm, 'ms': ms[k:k + per],
                            'first': first, 'cap': 400 if deep else 32, 'limit': 20000 if deep else 3000})
    out.sort(key=lambda c: -len(c['ms'][0]) * len(c['ms']))
    return out


def canon(state, mode, herm, coeff):
    ts, cre, ann = state
    x = conv.real((coeff, ts, cre, ann, mode))
    return x.canonicalize(hermitian_tensor=herm)


def key(term):
    return conv.plain(term)


def run_case(case):
    res = Result()
    ts, mode, herm = shape(case['text']), case['mode'], case['herm']
    op = tuple(case['op'])
    seen = set()
    for m in case['ms']:
        m = [(tuple(a), tuple(b)) for a, b in m]
        for w in product(case['al'], repeat=len(m)):
            if case['first'] is not None and w[0] != case['first']:
                continue
            t = terms.build(ts, op, m, w, 0, Fraction(1), mode)
            if t is None:
                continue
            seed = normal(t[1], t[2], t[3])
            if seed in seen:
                continue
            c0 = COEFF[len(seen) % len(COEFF)]
            signs, zero, complete = orbit(seed, mode, herm, res, case['limit'])
            seen.update(signs)
            res.states += len(signs)
            res.bump('orbits')
            res.bump('complete_orbits', int(complete))
            ref = canon(seed, mode, herm, c0)
            kref = key(ref)
            again = key(ref if ref.is_void() else conv.real(kref).canonicalize(hermitian_tensor=herm))
            res.traces += 1
            if again != kref:
                res.fail(f"not idempotent: {conv.show(kref)} -> {conv.show(again)} (hermitian {herm})")
            if zero and kref[0] != 0:
                res.fail(f"{conv.show((c0,) + t[1:])} vanishes by symmetry but its canonical form is {conv.show(kref)}")
            res.outcomes.add(hash(kref) & 0xffff)
            members = list(signs.items())
            step = max(1, len(members) // case['cap'])
            # the first rewrites (each generator on its own) and then evenly through the orbit
            pick = members[1::step]
            for n, (s, sg) in enumerate(pick):
                style = n % 3
                got = key(canon(renumber(s, style), mode, herm, c0))
                res.traces += 1
                want = (sg * kref[0],) + kref[1:]
                if got[1:] != want[1:] or (got[0] != want[0] and not zero):
                    res.fail(f"{conv.show((c0,) + t[1:])} and its rewrite {conv.show((sg * c0,) + renumber(s, style) + (mode,))} "
                             f"(hermitian {herm}) have canonical forms {conv.show(kref)} and {conv.show(got)}, the "
                             f"latter of a term with coefficient {c0} instead of {sg * c0}")
            if res.sample is None:
                res.sample = {'term': conv.show(t), 'orbit': len(signs), 'canonical': conv.show(kref),
                              'vanishes': zero}
    return res


if __name__ == '__main__':
    harness.main(globals())
