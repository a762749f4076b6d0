""" C16: operator builders and space expansions mean what they are named. """
import sys
from collections import Counter
from fractions import Fraction
from itertools import product
from math import factorial

import _path  # noqa
from mc import harness, conv, terms
from mc.harness import Result
from mc.sem import Model, clean, diff_keys, added, ELEM
from dsrg_generator.Term import (hamiltonian_operator, cluster_operator, diagonal_fock_operator, dyall_hamiltonian,
                                 fink_hamiltonian)

PID = 'C16'
LEVEL = 'model_checking'
RULE = ("every builder with every rank, start number, label and option in the bounds; every index connection x space "
        "word of the listed shapes x every limit (core, virtual), single/multi-reference, start number. states = "
        "terms/builder calls, transitions = generated terms, traces = block-wise values compared")
ASSUMPTIONS = ["terms as in C04; all-active amplitudes vanish where the result is canonicalized"]

A = (2, 2, 2)
QUICK = {
    'so': [('H1', (1, 1), 'gphvca'), ('T1', (1, 1), 'hpvca'), ('H1 T1', (1, 1), 'gphva'), ('H2', (2, 2), 'gha'),
           ('H2', (2, 2), 'pv'), ('T2', (2, 2), 'hpa'), ('T1 T1', (2, 2), 'hpc'), ('H1 T1', (0, 0), 'ghp'),
           ('H2 T1', (1, 1), 'gh'), ('H2 T1', (2, 2), 'p'), ('H1 L1', (0, 0), 'gh'), ('H2 L1', (1, 1), 'gpa')],
    'si': [('H1', (1, 1), 'gphvcaGPHVCA'), ('H2', (2, 2), 'gG'), ('T2', (2, 2), 'hpHP'), ('H1 T1', (1, 1), 'gpGP')],
    'sa': [('H1', (1, 1), 'gphvca'), ('H2', (2, 2), 'gp'), ('T2', (2, 2), 'hp'), ('T1 T1', (2, 2), 'hp')],
}
DEEP = {
    'so': [('H2', (2, 2), 'gphvca'), ('T2', (2, 2), 'hpvca'), ('T1 T1', (2, 2), 'hpvca'), ('H2 T1', (1, 1), 'ghpv'),
           ('H2 T1', (2, 2), 'hp'), ('H2 T2', (1, 1), 'hp'), ('H2 T2', (2, 2), 'h')],
    'si': [('H2', (2, 2), 'ghGH'), ('T1 T1', (2, 2), 'hpHP'), ('H2 T1', (1, 1), 'hpHP')],
    'sa': [('H2', (2, 2), 'gph'), ('H2 T2', (2, 2), 'p')],
}
MODELS = {}


def model(mode, size=None, t_active=False):
    size = size or ((1, 1, 1) if mode == 'si' else A)
    k = (mode, size, t_active)
    if k not in MODELS:
        MODELS[k] = Model(size, spin=(mode == 'si'), t_active=t_active, seed='c16')
    return MODELS[k]


def cases(tier):
    out = [{'build': 'hamiltonian'}, {'build': 'named'}]
    for lab in product('hca', 'pva'):
        out.append({'build': 'cluster', 'labels': lab})
    for mode in QUICK:
        for text, op, al in QUICK[mode] + (DEEP[mode] if tier == 'thorough' else []):
            ms = list(terms.canonical_pairings(text, op, True))
            n = len(al) ** len(ms[0])
            per = max(1, 30 // n)
            for k in range(0, len(ms), per):
                for a in (al if n > 30 else ('',)):
                    out.append({'text': text, 'op': op, 'al': al, 'mode': mode, 'ms': ms[k:k + per], 'first': a})
    out.sort(key=lambda c: -len(c.get('ms', [()])[0]))
    return out


def val(M, ts, mode):
    if mode == 'sa':
        out = {}
        for t in ts:
            M.eval_term(t, out, as_array=True)
        return clean(out)
    return M.eval_terms(ts)


def arr(M, ts):
    out = {}
    for t in ts:
        M.eval_term(t, out, as_array=True)
    return clean(out)


def used(t):
    return {i for x in t[1] for i in x[2] + x[3]} | set(t[2]) | set(t[3])


def hamiltonian(res):
    for mode in ('spin-orbital', 'spin-integrated', 'spin-adapted'):
        short = {'spin-orbital': 'so', 'spin-integrated': 'si', 'spin-adapted': 'sa'}[mode]
        for k in range(1, 5 if short == 'so' else 4):
            M = model(short, (1, 1, 1))
            for start in (0, 1, 2, 7, 100):
                for name in (mode, short):
                    p = conv.plain(hamiltonian_operator(k, start, name))
                    res.states += 1
                    if p[4] != short:
                        res.fail(f"hamiltonian_operator({k},{start},{name}) has indices {p[4]}")
                        continue
                    if used(p) != {('g', n) for n in range(start, start + 2 * k)}:
                        res.fail(f"hamiltonian_operator({k},{start}) uses the indices {sorted(used(p))}")
                    if len(p[1]) != 1 or p[1][0][0] != 'H' or len(p[1][0][2]) != k:
                        res.fail(f"hamiltonian_operator({k},{start}) is {conv.show(p)}")
                        continue
                    up = tuple(('g', n) for n in range(k))
                    lo = tuple(('g', n) for n in range(k, 2 * k))
                    want = (Fraction(1, factorial(k) ** 2), (('H', 'H', up, lo),), lo, up, short)
                    res.traces += 1
                    if k < 4 and (val(M, [p], short) != val(M, [want], short)):
                        res.fail(f"hamiltonian_operator({k},{start},{name}) is {conv.show(p)}")
                    elif k == 4:
                        h = p[1][0]
                        if p[0] != want[0] or set(h[2]) != set(p[3]) or set(h[3]) != set(p[2]):
                            res.fail(f"hamiltonian_operator({k},{start},{name}) is {conv.show(p)}")


def cluster(res, hl, pl):
    M = model('so', (2, 2, 2), True)
    for k in range(1, 4):
        for start in (0, 1, 3, 50):
            for exc in (True, False):
                for name, scale in product(('T', 'S'), (1.0, -1.0, 0.5, 3.0)):
                    for it in ('so', 'spin-orbital', 'sa') if scale == 1.0 else ('so',):
                        p = conv.plain(cluster_operator(k, start, exc, name, scale, hl, pl, it))
                        res.states += 1
                        h = tuple((hl, n) for n in range(start, start + k))
                        q = tuple((pl, n) for n in range(start, start + k))
                        if used(p) != set(h) | set(q) or p[1][0][:2] != ('T', name) or len(p[1]) != 1:
                            res.fail(f"cluster_operator({k},{start},{exc},{name},{scale},{hl},{pl},{it}) is {conv.show(p)}")
                            continue
                        if hl == pl:
                            continue
                        want = (Fraction(scale) / factorial(k) ** 2, (('T', name, h, q),), q if exc else h,
                                h if exc else q, 'sa' if it == 'sa' else 'so')
                        if k < 3:
                            same = val(M, [p], p[4]) == val(M, [want], want[4])
                        else:
                            same = p == want or val(model('so', (1, 1, 1), True), [p], p[4]) == val(
                                model('so', (1, 1, 1), True), [want], want[4]) and abs(p[0]) == abs(want[0])
                        res.traces += 1
                        if not same:
                            res.fail(f"cluster_operator({k},{start},{exc},{name},{scale},{hl},{pl},{it}) is {conv.show(p)}")


def space_counts(M, orbs):
    return Counter(M.space_of[o] for o in orbs)


def named(res):
    M = model('so', A)
    h1 = val(M, [conv.pt(1, ['H g1 g0'], 'g0', 'g1')], 'so')
    h2 = val(M, [conv.pt('1/4', ['H g2,g3 g0,g1'], 'g0,g1', 'g2,g3')], 'so')
    bd = lambda d, sr: clean({k: v for k, v in d.items() if space_counts(M, k[0]) == space_counts(M, k[1])
                              and not (sr and any(M.space_of[o] == 'a' for o in k[0] + k[1]))})
    act = clean({k: v for k, v in h2.items() if all(M.space_of[o] == 'a' for o in k[0] + k[1])})
    for name, got, want in [('diagonal_fock_operator(True)', diagonal_fock_operator(True), bd(h1, True)),
                            ('diagonal_fock_operator(False)', diagonal_fock_operator(False), bd(h1, False)),
                            ('dyall_hamiltonian()', dyall_hamiltonian(), added(bd(h1, False), act)),
                            ('fink_hamiltonian(True)', fink_hamiltonian(True), added(bd(h1, True), bd(h2, True))),
                            ('fink_hamiltonian(False)', fink_hamiltonian(False), added(bd(h1, False), bd(h2, False)))]:
        got = [conv.plain(t) for t in got]
        v = val(M, got, 'so')
        res.states += 1
        res.transitions += len(got)
        res.traces += 1
        if v != want:
            res.fail(f"{name} = {[conv.show(t) for t in got]}: {diff_keys(v, want)}")


def expansions(res, t):
    mode = t[4]
    M = model(mode)
    whole = arr(M, [t])
    n_op = len(t[2]) + len(t[3])
    spaces = lambda k: [M.space_of[o] for o in k[0] + k[1]]
    x = conv.real(t)
    calls = []
    for sr in (True, False):
        for mc in range(0, n_op + 1):
            for mv in range(0, n_op + 1):
                calls.append((f"make_ddca({mc},{mv},{sr})", x.make_ddca(mc, mv, sr), mc, mv, sr, 0))
        for start in (0, 1, 5):
            calls.append((f"expand_composite_indices({sr},{start})", x.expand_composite_indices(sr, start), n_op, n_op, sr, start))
        calls.append((f"make_ddca(1,1,{sr},3)", x.make_ddca(1, 1, sr, 3), 1, 1, sr, 3))
    for name, gen, mc, mv, sr, start in calls:
        got = [conv.plain(y) for y in gen]
        want = {k: v for k, v in whole.items() if spaces(k).count('c') <= mc and spaces(k).count('v') <= mv
                and not (sr and 'a' in spaces(k))}
        seen = [tuple(s for s, _ in g[2] + g[3]) for g in got]
        if len(set(seen)) != len(seen) or any(s.lower() not in 'cav' for b in seen for s in b):
            res.fail(f"{name} of {conv.show(t)}: blocks {seen}")
        if any(n < start for g in got for _, n in used(g)):
            res.fail(f"{name} of {conv.show(t)} uses numbers below {start}")
        v = arr(M, got)
        res.transitions += len(got)
        res.traces += 1
        if v != want:
            res.fail(f"{name} of {conv.show(t)} gives {[conv.show(g) for g in got][:5]}: {diff_keys(v, want)}")
        # which blocks are generated does not depend on the tensors
        lets = [[e.upper() if s.isupper() else e for e in ELEM[s.lower()]] for s, _ in t[2] + t[3]]
        blocks = [b for b in product(*lets) if sum(e.lower() == 'c' for e in b) <= mc and
                  sum(e.lower() == 'v' for e in b) <= mv and not (sr and any(e.lower() == 'a' for e in b))]
        if sorted(blocks) != sorted(seen):
            res.fail(f"{name} of {conv.show(t)}: blocks {sorted(seen)}, expected {sorted(blocks)}")
    if conv.plain(x) != conv.plain(conv.real(t)):
        res.fail(f"{conv.show(t)} was changed by an expansion")


def restricted(res, t):
    mode = t[4]
    M = model(mode)
    whole = val(M, [t], mode)
    sp = M.space_of
    for sr in (True, False):
        x = conv.real(t)
        y = conv.plain(x.make_excitation(sr))
        part, hole = ('v', 'c') if sr else ('av', 'ca')
        want = clean({k: v for k, v in whole.items() if all(sp[o] in part for o in k[0]) and
                      all(sp[o] in hole for o in k[1])})
        if t[2] + t[3] and all(s.lower() == 'a' for s, _ in t[2] + t[3]):
            want = {}
        if t[2] + t[3]:
            v = val(M, [y], mode)
            res.traces += 1
            res.transitions += 1
            if v != want:
                res.fail(f"make_excitation({sr}) of {conv.show(t)} gives {conv.show(y)}: {diff_keys(v, want)}")
            if not whole:
                pass
        if len(t[2]) == len(t[3]) == 1:
            got = [conv.plain(z) for z in conv.real(t).make_one_body_diagonal(sr)]
            want = clean({k: v for k, v in whole.items() if sp[k[0][0]] == sp[k[1][0]] and
                          not (sr and sp[k[0][0]] == 'a')})
            v = val(M, got, mode)
            res.transitions += len(got)
            res.traces += 1
            if v != want:
                res.fail(f"make_one_body_diagonal({sr}) of {conv.show(t)} gives {[conv.show(g) for g in got]}: "
                         f"{diff_keys(v, want)}")
            for g in got:
                if g[0] and g[2][0][0] != g[3][0][0]:
                    res.fail(f"make_one_body_diagonal({sr}) of {conv.show(t)}: {conv.show(g)} is not diagonal in the spaces")
        elif True:
            try:
                list(conv.real(t).make_one_body_diagonal(sr))
                res.fail(f"make_one_body_diagonal of {conv.show(t)} did not refuse")
            except ValueError:
                pass
        if conv.plain(x) != conv.plain(conv.real(t)):
            res.fail(f"{conv.show(t)} was changed by make_excitation")


def run_case(case):
    res = Result()
    if case.get('build') == 'hamiltonian':
        hamiltonian(res)
    elif case.get('build') == 'cluster':
        cluster(res, *case['labels'])
    elif case.get('build') == 'named':
        named(res)
    if 'build' in case:
        return res
    ts = terms.shape(case['text'])
    for m in case['ms']:
        m = [(tuple(a), tuple(b)) for a, b in m]
        for w in product(case['al'], repeat=len(m)):
            if case['first'] and w[0] != case['first']:
                continue
            t = terms.build(ts, tuple(case['op']), m, w, sum(map(ord, w)) % 2, Fraction(3, 8), case['mode'])
            if t is None or sum(s.isupper() for s, _ in t[2]) != sum(s.isupper() for s, _ in t[3]):
                continue
            res.states += 1
            expansions(res, t)
            restricted(res, t)
            if res.sample is None:
                res.sample = {'term': conv.show(t),
                              'blocks': [conv.show(conv.plain(y)) for y in conv.real(t).expand_composite_indices(False)][:4]}
    return res


if __name__ == '__main__':
    harness.main(globals())
