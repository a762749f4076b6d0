""" C12: singlet adaptation preserves the value of a spin-integrated term. """
from fractions import Fraction
from itertools import permutations, product

import _path  # noqa
from mc import harness, conv, terms
from mc.harness import Result
from mc.sem import Model, clean, diff_keys, parity_sort, P

PID = 'C12'
LEVEL = 'model_checking'
RULE = ("every index connection x spin-labelled space word of the listed tensor shapes x both majority spins; states = "
        "spin-integrated terms, transitions = generated spin-adapted terms, traces = values compared in the model of "
        "spin-free tensors")
ASSUMPTIONS = ["every tensor is singlet: its spin blocks are the signed sums over the spin-conserving permutations of "
               "one spin-free tensor, which is symmetric under permutations of its columns; Hermitian; all-active "
               "amplitudes vanish (defaults of canonicalize)",
               "fully contracted terms, one-body operators, and two-body operators of opposite spins (there the "
               "coefficient block of that spin case is meant; see DESIGN.md for same-spin operators)"]

CV, ACT = (2, 1, 2), (1, 2, 1)
QUICK = [
    ('H1', (1, 1), 'gphvcaGPHVCA', True, ACT), ('H1 T1', (0, 0), 'gphvcaGPHVCA', True, ACT),
    ('H1 T1', (1, 1), 'hpaHPA', True, ACT), ('H2 T2', (0, 0), 'cvCV', True, CV), ('H2 T2', (0, 0), 'hpHP', True, ACT),
    ('H2 T2', (0, 0), 'haHA', False, ACT), ('H2 T1 T1', (0, 0), 'cvCV', True, CV), ('H2 T1 T1', (0, 0), 'hpHP', False, ACT),
    ('H2 T1', (1, 1), 'cvCV', True, CV), ('H1 T2', (1, 1), 'hvHV', True, CV), ('H1 L1', (0, 0), 'gphvcaGPHVCA', True, ACT),
    ('H2 L1', (1, 1), 'gaGA', True, ACT), ('H2 L2', (0, 0), 'gaGA', True, ACT), ('T2 L1', (1, 1), 'haHA', True, ACT),
    ('T2 L1 L1', (0, 0), 'hH', True, ACT), ('T1 K1', (1, 1), 'hpaHPA', True, ACT), ('T2 T2', (0, 0), 'pvPV', True, ACT),
    ('H2 T2', (1, 1), 'vV', True, CV), ('T1 L2 T1', (0, 0), 'haHA', True, ACT), ('H2', (2, 2), 'gaGA', True, ACT),
    ('T2', (2, 2), 'hpHP', True, ACT), ('H2 T1', (2, 2), 'vV', True, CV), ('H2 T2', (2, 2), 'vV', False, CV),
    ('T1 T1', (2, 2), 'hpHP', True, ACT), ('H1 T1', (2, 2), 'cvCV', True, CV), ('H3 T3', (0, 0), 'vV', False, (0, 0, 3)),
    ('H2 T2 L1', (1, 1), 'aA', False, (0, 2, 0)), ('H2 T2 L2', (0, 0), 'aA', False, (0, 2, 0)),
    ('H1 T3', (2, 2), 'vV', False, (0, 0, 2)),
]
DEEP = QUICK + [
    ('H2 T2', (0, 0), 'hpvHPV', True, ACT), ('H2 T1 T1', (0, 0), 'hpaHPA', True, ACT), ('H2 T2', (1, 1), 'cvCV', True, CV),
    ('H2 T1', (1, 1), 'hpaHPA', True, ACT), ('H2 L2', (0, 0), 'gpaGPA', True, ACT), ('T2 L2', (1, 1), 'haHA', True, ACT),
    ('H2 T2', (2, 2), 'cvCV', False, CV), ('H3 T3', (0, 0), 'cvCV', False, (2, 0, 2)),
    ('H2 T2 T2', (0, 0), 'vV', False, CV), ('T2 T2 L2', (0, 0), 'aA', False, (0, 2, 0)),
    ('H2 T1 T1 L1', (0, 0), 'haHA', False, ACT),
]
MODELS = {}


class Singlet(Model):
    """ Spin-orbital model whose tensors come from one spin-free tensor each. """

    def __init__(self, size):
        super().__init__(size, spin=True, seed='c12')
        self.free = Model(size, seed='c12')

    def _value(self, kind, name, u, l):
        n = self.n_alpha
        su, sl = [o >= n for o in u], [o >= n for o in l]
        if kind == 'K':
            return 1 if u == l else 0
        uu = tuple(o % n for o in u)
        v = 0
        for p in permutations(range(len(l))):
            if [sl[k] for k in p] == su:
                v += parity_sort(p)[1] * self.free.value_sa(kind, name, uu, tuple(l[k] % n for k in p))
        return v % P


def model(size):
    if size not in MODELS:
        MODELS[size] = Singlet(size)
    return MODELS[size]


def cases(tier):
    out = []
    for text, op, al, side, size in DEEP if tier == 'thorough' else QUICK:
        ms = list(terms.canonical_pairings(text, op, side))
        n = len(al) ** len(ms[0])
        per = max(1, 40 // n)
        for k in range(0, len(ms), per):
            for a in (al if n > 300 else ('',)):
                out.append({'text': text, 'op': op, 'al': al, 'size': size, 'ms': ms[k:k + per], 'first': a})
    out.sort(key=lambda c: -len(c['ms'][0]))
    return out


def spatial(M, d):
    n = M.n_alpha
    return clean({tuple(tuple(o % n for o in k) for k in kk): v for kk, v in d.items()})


def explore(res, M, t):
    c, ts, cre, ann, _ = t
    nb = sum(s.isupper() for s, _ in cre)
    if nb != sum(s.isupper() for s, _ in ann) or len(cre) != len(ann):
        return
    if len(cre) > 2 or (len(cre) == 2 and nb != 1):
        return
    scale = 1
    if len(cre) == 2:
        # the coefficient of a^{alpha beta}_{alpha beta}: bring the operator to that order
        cc, s1 = parity_sort([(s.isupper(), k) for k, (s, _) in enumerate(cre)])
        aa, s2 = parity_sort([(s.isupper(), k) for k, (s, _) in enumerate(ann)])
        cre2, ann2 = tuple(cre[k] for _, k in cc), tuple(ann[k] for _, k in aa)
        scale = 4
        v0 = M.eval_term((c * s1 * s2, ts, cre2, ann2, 'si'), as_array=True)
    else:
        v0 = M.eval_term(t, as_array=True)
    want = spatial(M, v0)
    res.states += 1
    for major in (True, False):
        x = conv.real(t)
        got = [conv.plain(y) for y in x.generate_singlet_adaptation(major)]
        if conv.plain(x) != conv.plain(conv.real(t)):
            res.fail(f"{conv.show(t)} was changed by singlet adaptation")
        res.transitions += len(got)
        val = {}
        for g in got:
            if g[4] != 'sa' or any(s.isupper() for w in [g[2], g[3]] + [z for q in g[1] for z in q[2:]] for s, _ in w):
                res.fail(f"{conv.show(g)} from {conv.show(t)} is not spin adapted")
                return
            M.free.eval_term((g[0] * scale,) + g[1:], val, as_array=True)
        val = clean(val)
        res.traces += 1
        if val != want:
            res.fail(f"singlet adaptation (alpha_major={major}) of {conv.show(t)} gives "
                     f"{[conv.show(g) for g in got][:6]}: {diff_keys(val, want)}")
        res.outcomes.add((len(got), bool(want)))
        if res.sample is None and got:
            res.sample = {'term': conv.show(t), 'adapted': [conv.show(g) for g in got[:3]]}


def run_case(case):
    res = Result()
    ts = terms.shape(case['text'])
    M = model(tuple(case['size']))
    for m in case['ms']:
        m = [(tuple(a), tuple(b)) for a, b in m]
        for w in product(case['al'], repeat=len(m)):
            if case['first'] and w[0] != case['first']:
                continue
            t = terms.build(ts, tuple(case['op']), m, w, sum(map(ord, w)) % 2, Fraction(3, 7), 'si')
            if t is not None:
                explore(res, M, t)
    return res


if __name__ == '__main__':
    harness.main(globals())
