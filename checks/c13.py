""" C13: printed tensor-contraction statements compute the terms they stand for. """
from fractions import Fraction
from itertools import permutations, product

import _path  # noqa
from mc import harness, conv, terms, prog
from mc.harness import Result, captured
from mc.sem import ELEM
from dsrg_generator.phys_op_contraction import print_terms_ambit

PID = 'C13'
LEVEL = 'model_checking'
RULE = ("every index connection x space word of the listed tensor shapes as a single statement group with every "
        "printing option, and every ordered list of terms (repetitions included) up to the bound over term alphabets through "
        "print_terms_ambit; each program is executed by an interpreter over GF(p). states = programs, transitions = "
        "executed statements, traces = result tensors compared with the operator meaning of the terms")
ASSUMPTIONS = ["terms are canonical, with at least one tensor and no diagonal indices",
               "amplitudes are stored [holes, particles], all tensors are real symmetric",
               "the interpreter's reading of ambit statements (sum over indices missing on the left)"]

A, B, V3 = (2, 2, 2), (1, 2, 1), (0, 0, 3)
SINGLE = {
    'so': [('H1', (1, 1), 'gphvca', A), ('T1', (1, 1), 'hpvca', A), ('H1 T1', (0, 0), 'gphvca', A),
           ('H1 T1', (1, 1), 'hpvca', A), ('H2', (2, 2), 'ghv', A), ('H2', (2, 2), 'pca', A), ('T2', (2, 2), 'hpvca', A),
           ('T1 T1', (2, 2), 'hpva', A), ('H1 T1', (2, 2), 'hpc', A), ('H2 T1', (2, 2), 'hv', A), ('H2 T1', (2, 2), 'pa', A),
           ('H2 T2', (2, 2), 'cv', A), ('H2 T2', (1, 1), 'hv', A), ('H2 T2', (0, 0), 'hpva', A), ('H2 L1', (1, 1), 'gha', A),
           ('H2 L2', (0, 0), 'ga', A), ('H1 T2', (2, 2), 'pa', A), ('H2 T1 T1', (1, 1), 'cv', A),
           ('H2 T1 T1', (2, 2), 'v', A), ('T1 T1 T1', (3, 3), 'v', V3), ('H2 T1', (3, 3), 'v', V3),
           ('H2 T2', (3, 3), 'v', V3), ('T1 S1', (2, 2), 'hpc', A), ('T1 T2', (3, 3), 'v', V3),
           ('T3', (3, 3), 'v', V3), ('H1 T2', (3, 3), 'v', V3), ('T2 L1', (1, 1), 'hpa', A),
           ('T2 L1', (2, 2), 'ha', A),
           ('H1', (2, 0), 'ghv', A), ('H1', (0, 2), 'pca', A), ('T1', (0, 2), 'hp', A), ('H2', (3, 1), 'pc', A),
           ('H2', (1, 3), 'ha', A), ('T2', (3, 1), 'cv', A), ('H1 T1', (3, 1), 'cv', A), ('H1 T1', (1, 3), 'ha', A),
           ('H2 T1', (1, 3), 'v', V3), ('H2', (4, 0), 'v', (0, 0, 4)), ('H1 T1', (0, 4), 'v', (0, 0, 4)),
           ('H1 T1', (0, 2), 'hpv', A), ('H2 T2', (0, 2), 'v', V3)],
    'si': [('H1', (1, 1), 'gphvGPHV', B), ('H1 T1', (1, 1), 'hpaHPA', B), ('T2', (2, 2), 'hpHP', B),
           ('H2', (2, 2), 'gaGA', B), ('T1 T1', (2, 2), 'hpHP', B), ('H1 T1', (2, 2), 'cvCV', (2, 0, 2)),
           ('H2 T1', (2, 2), 'vV', (0, 0, 2)), ('H2 T2', (2, 2), 'vV', (0, 0, 2)), ('H2 T2', (0, 0), 'cvCV', (2, 0, 2)),
           ('H2 T1', (3, 3), 'vV', (0, 0, 2)), ('T1 T1 T1', (3, 3), 'vV', (0, 0, 2)), ('H2 L1', (1, 1), 'gaGA', B),
           ('H1', (2, 0), 'gvGV', B), ('H2', (3, 1), 'vV', (0, 0, 2)), ('H1 T1', (1, 3), 'vV', (0, 0, 2))],
    'sa': [('H1', (1, 1), 'gphv', A), ('H1 T1', (1, 1), 'hpa', A), ('T2', (2, 2), 'hpa', A), ('H2', (2, 2), 'ga', A),
           ('T1 T1', (2, 2), 'hpv', A), ('H2 T1', (2, 2), 'cv', A), ('H2 T2', (2, 2), 'v', A), ('H2 T2', (0, 0), 'cv', A),
           ('H2 L1', (1, 1), 'ga', A)],
}
DEEP = {
    'so': [('H2', (2, 2), 'gphvca', A), ('H2 T1', (2, 2), 'hpv', A), ('H2 T2', (2, 2), 'hcv', A),
           ('H2 T2', (1, 1), 'hpv', A), ('T1 T1', (2, 2), 'hpvca', A), ('H2 T1 T1', (2, 2), 'cv', A),
           ('H2 T2', (3, 3), 'cv', (2, 0, 2)), ('T1 T2', (3, 3), 'cv', (2, 0, 2)), ('H2 T1', (3, 3), 'cv', (2, 0, 2))],
    'si': [('H2 T1', (2, 2), 'cvCV', (2, 0, 2)), ('H2 T2', (2, 2), 'cvCV', (2, 0, 2)), ('T2', (2, 2), 'hpvHPV', B),
           ('H2 T1', (1, 1), 'hpHP', B)],
    'sa': [('H2 T2', (2, 2), 'cv', A), ('H2 T1 T1', (2, 2), 'cv', A), ('H2', (2, 2), 'gphvca', A)],
}

MODELS = {}


def model(size, mode):
    k = (size, mode)
    if k not in MODELS:
        MODELS[k] = prog.Inputs(size, spin=(mode == 'si'), seed='c13')
    return MODELS[k]


def stored(t):
    """ Every amplitude has a hole side and a particle side. """
    for k, _, u, l in t[1]:
        if k == 'T':
            u, l = {s.lower() for s, _ in u}, {s.lower() for s, _ in l}
            if not (u <= set('hca') and l <= set('pva')) and not (l <= set('hca') and u <= set('pva')):
                return False
    return True


ALPHABET = {
    'so': [('1/4', ['H c0,c1 v0,v1'], 'v0,v1', 'c0,c1'),
           ('-1/2', ['H v2,c0 v0,v1', 'T c1 v2'], 'v0,v1', 'c0,c1'),
           ('1/2', ['H v2,v3 v0,c2', 'T c0,c1 v2,v3', 'T c2 v1'], 'v0,v1', 'c0,c1'),
           ('1', ['H v2,c0 v0,c2', 'T c1,c2 v1,v2'], 'v0,v1', 'c0,c1'),
           ('3/2', ['H c0 v0', 'T c1 v1'], 'v0,v1', 'c0,c1'),
           ('1/8', ['H v2,v3 v0,v1', 'T c0,c1 v2,v3'], 'v0,v1', 'c0,c1'),
           ('2', ['H c0 v0'], 'v0', 'c0'), ('-1', ['H v1 v0', 'T c0 v1'], 'v0', 'c0'),
           ('1', ['H h0 p0', 'T h1 p1'], 'p0,p1', 'h0,h1'), ('-5', ['H h0,h1 p0,g0', 'T g0 p1'], 'p0,p1', 'h0,h1'),
           ('1', ['H v0 c0', 'T c0 v0'], '', ''), ('1/4', ['H v0,v1 c0,c1', 'T c0,c1 v0,v1'], '', ''),
           ('7', ['H c0,a0 v0,a1'], 'v0,a1', 'c0,a0'), ('1', ['H c0 v0', 'T a0 v1'], 'v0,v1', 'c0,a0'),
           ('-1/3', ['H a0 v0', 'T c0 v1'], 'v0,v1', 'c0,a0'),
           ('2', ['H v0 c0', 'H c1 v1'], 'v0,v1,c0', 'c1'),
           ('-1', ['H v0,c1 c0,v1'], 'v0,v1,c0', 'c1')],
    'si': [('1/4', ['H c0,c1 v0,v1'], 'v0,v1', 'c0,c1'), ('1', ['H c0,C0 v0,V0'], 'v0,V0', 'c0,C0'),
           ('2', ['H c0 v0', 'T C0 V0'], 'v0,V0', 'c0,C0'), ('-3', ['H v1 v0', 'T c0,C0 v1,V0'], 'v0,V0', 'c0,C0'),
           ('1/2', ['H c0 v0', 'T c1 v1'], 'v0,v1', 'c0,c1'), ('-1', ['H C0 V0', 'T C1 V1'], 'V0,V1', 'C0,C1'),
           ('1', ['H C0 V0'], 'V0', 'C0'), ('1', ['H v0,V0 c0,C0', 'T c0,C0 v0,V0'], '', '')],
    'sa': [('1', ['H c0,c1 v0,v1'], 'v0,v1', 'c0,c1'), ('2', ['H c0 v0', 'T c1 v1'], 'v0,v1', 'c0,c1'),
           ('-1', ['H c1,c0 v0,v1'], 'v0,v1', 'c0,c1'), ('1', ['H v1 v0', 'T c0,c1 v1,v2'], 'v0,v2', 'c0,c1'),
           ('1', ['H c0 v0'], 'v0', 'c0'), ('2', ['H v0,v1 c0,c1', 'T c0,c1 v0,v1'], '', '')],
}


def alphabet(mode):
    out = []
    for c, ts, cre, ann in ALPHABET[mode]:
        t = conv.pt(c, ts, cre, ann, mode)
        if 'g' in ''.join(ts) and 'T g' in ' '.join(ts):
            t = conv.pt(c, [x.replace('g0', 'h2') for x in ts], cre, ann, mode)
        out.append(t)
    return out


def cases(tier):
    out = []
    for mode in SINGLE:
        for text, op, al, size in SINGLE[mode] + (DEEP[mode] if tier == 'thorough' else []):
            ms = list(terms.canonical_pairings(text, op, True))
            n = len(al) ** len(ms[0])
            per = max(1, 60 // n)
            for k in range(0, len(ms), per):
                for a in (al if n > 250 else ('',)):
                    out.append({'text': text, 'op': op, 'al': al, 'size': size, 'mode': mode, 'ms': ms[k:k + per],
                                'first': a})
        n = len(ALPHABET[mode])
        for a in range(n):
            for b in range(n):
                out.append({'list': [a, b], 'mode': mode, 'more': 3 if tier == 'quick' else 4})
    out.sort(key=lambda c: -len(c.get('ms', [()])[0]))
    return out


OPTIONS = [dict(), dict(init_temp=True, declared_temp=False), dict(init_temp=False, declared_temp=True), dict(name='Q')]


def run_program(res, M, mode, plains, text, what, prepared=None, name='C'):
    ranks = sorted({prog.rank(p[2], p[3]) for p in plains}, key=str)
    m = prog.results_machine(M, ranks, mode)
    if prepared:
        m.arrays['temp'] = prog.Array(prepared)
    if name != 'C':
        for n in ranks:
            if n:
                m.arrays[prog.rank_name(name, n)] = m.arrays.pop(prog.rank_name('C', n))
            else:
                m.scalars[f'{name}0'] = m.scalars.pop('C0')
    try:
        m.run(text)
    except prog.ProgramError as e:
        res.fail(f"{what}: {e}\n{text}")
        return
    if name != 'C':
        for n in ranks:
            if n:
                m.arrays[prog.rank_name('C', n)] = m.arrays.pop(prog.rank_name(name, n))
            else:
                m.scalars['C0'] = m.scalars.pop(f'{name}0')
    got, want = prog.results(m, ranks), prog.expected(M, plains, mode)
    res.states += 1
    res.transitions += m.n_statements
    for n in ranks:
        res.traces += 1
        w = {k: v for k, v in want.get(n, {}).items() if v}
        if got[n] != w:
            bad = [(k, got[n].get(k, 0), w.get(k, 0)) for k in sorted(set(got[n]) | set(w)) if got[n].get(k, 0) != w.get(k, 0)]
            res.fail(f"{what}: {len(bad)} wrong elements of C{n}, e.g. (orbitals, got, expected) {bad[:3]}\n{text}")
    res.outcomes.add((m.n_statements, tuple(ranks)))


def run_case(case):
    res = Result()
    mode = case['mode']
    if 'list' in case:
        al = alphabet(mode)
        M = model((2, 1, 2) if mode != 'si' else (2, 0, 2), mode)
        rest = [k for k in range(len(al)) if k not in case['list'][1:]]
        lists = [case['list']]
        if case['more'] >= 3:
            lists += [case['list'] + [k] for k in rest]
        if case['more'] >= 4:
            lists += [case['list'] + [k, j] for k in rest for j in rest if j != k]
        for ls in lists:
            real = [conv.real(al[k]).canonicalize() for k in ls]
            plains = [conv.plain(t) for t in real]
            with captured() as buf:
                print_terms_ambit(real)
            text = buf.getvalue()
            run_program(res, M, mode, plains, text, f"print_terms_ambit{[conv.show(p) for p in plains]}")
            if [conv.plain(t) for t in real] != plains:
                res.fail("print_terms_ambit changed its input")
            if res.sample is None:
                res.sample = {'terms': [conv.show(p) for p in plains], 'program': text}
        return res
    ts = terms.shape(case['text'])
    M = model(tuple(case['size']), mode)
    seen = set()
    for m in case['ms']:
        m = [(tuple(a), tuple(b)) for a, b in m]
        for w in product(case['al'], repeat=len(m)):
            if case['first'] and w[0] != case['first']:
                continue
            t = terms.build(ts, tuple(case['op']), m, w, 0, Fraction(3, 8), mode)
            if t is None or sum(s.isupper() for s, _ in t[2]) != sum(s.isupper() for s, _ in t[3]):
                continue
            c = conv.real(t).canonicalize()
            if c.is_void():
                continue
            p = conv.plain(c)
            if p in seen or not stored(p):
                continue
            seen.add(p)
            for o in OPTIONS:
                before = None
                if not o.get('init_temp', True):
                    before = ''.join(s for s, _ in p[3] + p[2])
                text = c.ambit(**o)
                run_program(res, M, mode, [p], text, f"ambit({o}) of {conv.show(p)}", before, o.get('name', 'C'))
            if res.sample is None:
                res.sample = {'term': conv.show(p), 'program': c.ambit()}
    return res


if __name__ == '__main__':
    harness.main(globals())
