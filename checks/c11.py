""" C11: spin integration preserves the value of a term. """
from collections import Counter
from fractions import Fraction
from itertools import product

import _path  # noqa
from mc import harness, conv, terms
from mc.harness import Result
from mc.sem import Model, clean, added, diff_keys

PID = 'C11'
LEVEL = 'model_checking'
RULE = ("every index connection x space word of the listed tensor shapes; for each term every spin assignment of its "
        "indices is enumerated by the checker and compared with the generated terms. states = spin assignments, "
        "transitions = generated terms, traces = values compared in the spin-orbital model")
ASSUMPTIONS = ["tensors conserve spin, are Hermitian and all-active amplitudes vanish (defaults of canonicalize)",
               "the tensors' spin conservation makes the operator spin conserving",
               "terms as in C04"]

CV, ACT = (2, 1, 2), (1, 2, 1)
QUICK = [
    ('H1', (1, 1), 'gphvca', False, ACT), ('T1', (1, 1), 'hpvca', True, ACT), ('H1 T1', (0, 0), 'gphvca', True, ACT),
    ('H1 T1', (1, 1), 'gphvca', True, ACT), ('H2', (2, 2), 'ghva', True, ACT), ('T2', (2, 2), 'hpcva', False, CV),
    ('T2', (2, 2), 'hpa', True, ACT), ('H2 T2', (0, 0), 'hcv', True, CV), ('H2 T2', (0, 0), 'hpa', True, ACT),
    ('H2 T1 T1', (0, 0), 'pcv', False, CV), ('H2 T1', (1, 1), 'hva', False, ACT), ('H1 T2', (1, 1), 'hcv', False, CV),
    ('H1 L1', (0, 0), 'gphvca', True, ACT), ('H2 L1', (1, 1), 'gha', True, ACT), ('H2 L2', (0, 0), 'gha', True, ACT),
    ('T2 L1', (1, 1), 'hpa', True, ACT), ('T2 L1 L1', (0, 0), 'ha', True, ACT), ('T1 K1', (1, 1), 'hpcva', True, ACT),
    ('H1 K1', (1, 1), 'gphvca', True, ACT), ('T2 T2', (0, 0), 'hpa', True, ACT), ('H2 T2', (1, 1), 'cv', False, CV),
    ('T3', (3, 3), 'v', False, (0, 0, 3)), ('T1 L2 T1', (0, 0), 'hpa', False, ACT), ('H2 T2', (2, 2), 'v', False, CV),
    ('H2 T2 L1', (1, 1), 'a', False, (0, 2, 0)), ('T1 S1', (0, 0), 'hpa', True, ACT),
    ('H1 K1 L1', (1, 1), 'gpha', True, ACT), ('T1 K1 L1', (1, 1), 'hpca', True, ACT), ('T2 K1 L1', (1, 1), 'hp', False, ACT),
]
DEEP = QUICK + [
    ('H2', (2, 2), 'gphvca', False, ACT), ('H2 T2', (0, 0), 'hpvca', False, ACT), ('H2 T1 T1', (0, 0), 'hpa', True, ACT),
    ('H2 T2', (1, 1), 'hcv', False, CV), ('H2 L1 L1', (0, 0), 'gha', False, ACT), ('T2 L2', (1, 1), 'ha', False, ACT),
    ('H2 T2 L1', (1, 1), 'ha', False, ACT), ('T2 T2 L2', (0, 0), 'a', False, (0, 3, 0)),
    ('T3', (3, 3), 'cv', False, (3, 0, 3)), ('H2 T3', (1, 1), 'v', False, (0, 0, 3)),
]
MODELS = {}


def model(size):
    if size not in MODELS:
        MODELS[size] = Model(size, hermitian=True, t_active=False, spin=True, seed='c11')
    return MODELS[size]


def cases(tier):
    out = []
    for text, op, al, side, size in DEEP if tier == 'thorough' else QUICK:
        ms = list(terms.canonical_pairings(text, op, side))
        n = len(al) ** len(ms[0])
        per = max(1, 12 // n)
        for k in range(0, len(ms), per):
            if n > 60:
                for a, b in product(al, repeat=2):
                    out.append({'text': text, 'op': op, 'al': al, 'size': size, 'ms': ms[k:k + per], 'head': [a, b]})
            else:
                out.append({'text': text, 'op': op, 'al': al, 'size': size, 'ms': ms[k:k + per], 'head': []})
    out.sort(key=lambda c: -len(c['ms'][0]))
    return out


def spin_cases(t):
    """ All admissible spin assignments as plain spin-integrated terms. """
    c, ts, cre, ann, _ = t
    idx = sorted({i for x in ts for i in x[2] + x[3]} | set(cre) | set(ann))
    for s in product((0, 1), repeat=len(idx)):
        m = {i: (i[0].upper() if b else i[0], i[1]) for i, b in zip(idx, s)}
        f = lambda w: tuple(m[i] for i in w)
        nb = lambda w: sum(m[i][0].isupper() for i in w)
        if any(nb(u) != nb(l) for _, _, u, l in ts):
            continue
        if nb(cre) != nb(ann):
            yield None      # the operator does not conserve spin: outside the domain
            return
        yield (c, tuple((k, n, f(u), f(l)) for k, n, u, l in ts), f(cre), f(ann), 'si')


def explore(res, M, t):
    si = list(spin_cases(t))
    if None in si:
        return
    want_cases = [M.eval_terms([x]) for x in si]
    total = M.eval_terms([t])
    assert added(*want_cases) == total if want_cases else not total, 'checker: spin sum'
    x = conv.real(t)
    got = [conv.plain(y) for y in x.generate_spin_cases_naive()]
    if conv.plain(x) != conv.plain(conv.real(t)):
        res.fail(f"{conv.show(t)} was changed by spin integration")
    res.states += len(want_cases)
    res.transitions += len(got)
    for g in got:
        if g[4] != 'si':
            res.fail(f"{conv.show(g)} is not spin integrated")
        nb = lambda w: sum(s.isupper() for s, _ in w)
        if any(nb(u) != nb(l) for _, _, u, l in g[1]) or nb(g[2]) != nb(g[3]):
            res.fail(f"{conv.show(g)} does not conserve spin")
    vals = [M.eval_terms([g]) for g in got]
    s = added(*vals) if vals else {}
    res.traces += 1 + len(vals)
    if s != total:
        res.fail(f"the spin cases of {conv.show(t)} do not add up to it: {diff_keys(s, total)}; {[conv.show(g) for g in got][:6]}")
    fz = lambda d: frozenset(d.items())
    a, b = Counter(fz(v) for v in vals if v), Counter(fz(v) for v in want_cases if v)
    if a != b:
        res.fail(f"the spin cases of {conv.show(t)} are not its admissible spin assignments, each once: "
                 f"{sum(a.values())} generated, {sum(b.values())} expected")
    res.outcomes.add((len(got), len(b)))
    if res.sample is None and got:
        res.sample = {'term': conv.show(t), 'spin_cases': len(got), 'first': conv.show(got[0])}


def run_case(case):
    res = Result()
    ts = terms.shape(case['text'])
    M = model(tuple(case['size']))
    for m in case['ms']:
        m = [(tuple(a), tuple(b)) for a, b in m]
        for w in product(case['al'], repeat=len(m)):
            if list(w[:2]) != case['head'] and case['head']:
                continue
            t = terms.build(ts, tuple(case['op']), m, w, sum(map(ord, w)) % 2, Fraction(3, 7), 'so')
            if t is not None:
                explore(res, M, t)
    return res


if __name__ == '__main__':
    harness.main(globals())
