""" C19: amplitude gradients are exact derivatives. """
from fractions import Fraction
from itertools import product

import _path  # noqa
from mc import harness, conv, terms
from mc.harness import Result
from mc.sem import Model, P

PID = 'C19'
LEVEL = 'model_checking'
RULE = ("every index connection x space word of the listed fully contracted shapes, in spin-orbital, spin-integrated "
        "and spin-adapted form, with one to three amplitudes of one or two names; states = terms, transitions = "
        "gradient terms, traces = directional derivatives compared")
ASSUMPTIONS = ["Hermitian tensors (the variations are not, so that the orientation of the operators counts); all-active "
               "amplitudes and their variations are zero (the code's convention)",
               "generic values over GF(2^31-1) decide polynomial identity"]

QUICK = [('H1 T1', 'gphvca', 'so', True), ('H2 T2', 'hpv', 'so', True), ('H2 T2', 'cva', 'so', False),
         ('H2 T1 T1', 'hpa', 'so', False), ('H2 T1 T1', 'cv', 'so', True), ('H2 T1 S1', 'hp', 'so', True),
         ('H1 T1 L1', 'gphac', 'so', True), ('T1 T1 L1 L1', 'hpa', 'so', True), ('T1 T1', 'hpcav', 'so', True),
         ('T2 T2', 'hpva', 'so', False), ('T2 S2', 'hpa', 'so', False), ('H2 T2 L1', 'ha', 'so', False),
         ('H1 T2 T1', 'hp', 'so', False), ('H1 T2 T2', 'cv', 'so', False), ('T2 L2', 'ahp', 'so', True),
         ('T1 T1 L2', 'ahp', 'so', True), ('T1 T1 H2 L1', 'h', 'so', False), ('H2 T1 T1 L1', 'hp', 'so', False),
         ('H2 T1', 'hp', 'so', False), ('H1 T1 T1 T1', 'cv', 'so', True), ('H2 T2 T1 T1', 'c', 'so', False),
         ('T1 T2 L2 L1', 'ha', 'so', False), ('T1 T1 T1 L3', 'a', 'so', False), ('T3 H3', 'v', 'so', False),
         ('H1 T1 K1', 'hpa', 'so', True), ('T1 S1', 'hpcav', 'so', True),
         ('H1 T1', 'hpcHPC', 'si', False), ('H2 T2', 'cvCV', 'si', False), ('H2 T1 T1', 'cvCV', 'si', False),
         ('T2 T2', 'hpHP', 'si', False), ('H2 T2 L1', 'aA', 'si', False), ('T2 L2', 'hH', 'si', False),
         ('H1 T1', 'hpc', 'sa', True), ('H2 T2', 'hpv', 'sa', True), ('H2 T1 T1', 'hp', 'sa', True),
         ('T2 S2', 'hp', 'sa', False), ('T1 T1 L2', 'ah', 'sa', True),
         ('H2 T2', 'ghpvca', 'so', True), ('H2 T1 T1', 'hpvca', 'so', True), ('H1 T1 L1', 'gphacv', 'so', True),
         ('T2 T2', 'hpvca', 'so', True), ('T2 S2', 'hpva', 'so', True), ('H2 T2 L1', 'hpa', 'so', True),
         ('H1 T2 T1', 'hpa', 'so', True), ('H1 T2 T2', 'hp', 'so', True), ('H1 T1 T1 T1', 'hpa', 'so', True)]
DEEP = [('H2 T1 T1 L1', 'hpa', 'so', False), ('H2 T2 L2', 'ha', 'so', False), ('T3 H3', 'cv', 'so', False),
        ('H2 T2 T1 T1', 'cv', 'so', False), ('H2 T2 T2', 'cv', 'so', False), ('H2 T2 T2 L1', 'a', 'so', False)]
MODELS = {}


def model(mode, text):
    size = (1, 2, 1) if mode == 'si' else (3, 3, 3) if '3' in text else (2, 2, 2)
    k = (mode, size)
    if k not in MODELS:
        MODELS[k] = Model(size, spin=(mode == 'si'), seed='c19')
    return MODELS[k]


def cases(tier):
    out = []
    for text, al, mode, side in QUICK + (DEEP if tier == 'thorough' else []):
        ms = list(terms.canonical_pairings(text, (0, 0), side))
        if not ms:
            continue
        n = len(al) ** len(ms[0])
        per = max(1, 60 // n)
        for k in range(0, len(ms), per):
            for a in (al if n > 60 else ('',)):
                out.append({'text': text, 'al': al, 'mode': mode, 'ms': ms[k:k + per], 'first': a})
    out.sort(key=lambda c: -len(c['ms'][0]))
    return out


def scalar(M, t):
    out = {}
    M.eval_term(t, out, as_array=True)
    return out.get(((), ()), 0) % P


def run_case(case):
    res = Result()
    ts = terms.shape(case['text'])
    M = model(case['mode'], case['text'])
    for m in case['ms']:
        m = [(tuple(a), tuple(b)) for a, b in m]
        for w in product(case['al'], repeat=len(m)):
            if case['first'] and w[0] != case['first']:
                continue
            t = terms.build(ts, (0, 0), m, w, sum(map(ord, w)) % 3, Fraction(-3, 8), case['mode'])
            if t is None:
                continue
            res.states += 1
            # product rule on the value: replace one amplitude by its variation
            exp = 0
            for n, x in enumerate(t[1]):
                if x[0] == 'T':
                    exp += scalar(M, (t[0], t[1][:n] + (('T', '~' + x[1], x[2], x[3]),) + t[1][n + 1:], (), (), t[4]))
            exp %= P
            x = conv.real(t)
            before = conv.plain(x)
            grads = [conv.plain(g) for g in x.gradient_t()]
            res.check(conv.plain(x) == before, f"gradient_t changed {conv.show(t)}")
            res.transitions += len(grads)
            # pair every gradient term with the variation of an amplitude: which of the names it belongs to is told by
            # the amplitude that is missing
            names = sorted(y[1] for y in t[1] if y[0] == 'T')
            got = 0
            for g in grads:
                if g[0] == 0:
                    continue
                left = sorted(y[1] for y in g[1] if y[0] == 'T')
                gone = list(names)
                for y in left:
                    if y in gone:
                        gone.remove(y)
                if len(gone) != 1 or len(left) != len(names) - 1:
                    res.fail(f"gradient of {conv.show(t)} contains {conv.show(g)}")
                    continue
                got += scalar(M, (g[0], g[1] + (('T', '~' + gone[0], g[3], g[2]),), (), (), g[4]))
            res.traces += 1
            res.outcomes.add((len(grads), exp == 0))
            if got % P != exp:
                res.fail(f"gradient of {conv.show(t)}: {[conv.show(g) for g in grads]} gives {got % P}, the directional "
                         f"derivative is {exp}")
            if res.sample is None:
                res.sample = {'term': conv.show(t), 'gradient': [conv.show(g) for g in grads]}
    return res


if __name__ == '__main__':
    harness.main(globals())
