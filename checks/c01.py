""" C01: contracting normal-ordered operators gives exactly their product (generalized Wick theorem). """
import _path  # noqa
from mc import harness
from mc import wick, wickimpl, opcases, fockwick
from mc.harness import Result

PID = 'C01'
LEVEL = 'model_checking'
RULE = ("every list of operator shapes x MO-space words x label styles x truncation options in the stated alphabets; "
        "states = expected contributions enumerated, transitions = contributions produced by the real code and "
        "compared, traces = orbital assignments whose exact Fock-space product was compared")
ASSUMPTIONS = ["operators of one list carry pairwise distinct index labels (diagonal operators excepted)",
               "spin-orbital indices (the code rejects others)"]
BIG = 10 ** 6
FULL = [[0, BIG, 0, True], [0, BIG, 0, False]]
F = [[0, BIG, 0, False]]
F3 = [[3, BIG, 0, True]]


def block(shapes, alphabet, styles, opts):
    return [{'ops': ops, 'opts': opts} for ops in opcases.spec(shapes, alphabet, styles)]


def group(cases, n):
    """ Many tiny cases travel together. """
    return [{'many': cases[i:i + n]} for i in range(0, len(cases), n)]


def cases(tier):
    deep = tier == 'thorough'
    out = []
    small = []
    small += block([(1, 1), (1, 1)], 'gphvca', (0, 1), FULL)
    odd = [(1, 0), (0, 1), (2, 0), (0, 2), (2, 1), (1, 2)]
    for s in odd:
        for t in odd + [(1, 1)]:
            small += block([s, t], 'ahv', (0, 2), FULL[:1])
            if t == (1, 1):
                small += block([t, s], 'ahp', (1,), FULL[1:])
    for s in [(1, 0), (0, 1)]:
        for t in [(1, 0), (0, 1), (1, 1)]:
            for u in [(1, 0), (0, 1), (1, 1)]:
                small += block([s, t, u], 'agp', (0,), F)
    small += block([(1, 1)] * 3, 'aphcv' if not deep else 'gphvca', (0,), F)
    small += block([(1, 1)] * 3, 'ah', (1, 2), FULL[:1])
    small += block([(2, 2), (1, 1)], 'gphvca', (0,), F)
    small += block([(1, 1), (2, 2)], 'apcv' if not deep else 'gphvca', (1,), F)
    # diagonal operators: the same label as creation and annihilation
    for s in 'gphvca':
        for t in 'gphvca':
            small.append({'ops': [[[[s, 0]], [[s, 0]]], [[[t, 1]], [[t, 1]]]], 'opts': FULL})
            small.append({'ops': [[[[s, 0]], [[s, 0]]], [[[t, 1]], [['g', 2]]]], 'opts': FULL})
            small.append({'ops': [[[[s, 0], [t, 1]], [[s, 0], [t, 1]]], [[['g', 2]], [['g', 3]]]], 'opts': FULL})
            small.append({'ops': [[[['g', 2]], [['g', 3]]], [[[s, 0], [t, 1]], [[t, 1], [s, 0]]]], 'opts': FULL})
            small.append({'ops': [[[[s, 0], [t, 1]], [[s, 0], ['g', 4]]], [[['h', 2]], [['h', 2]]]], 'opts': FULL})
    out += group(small, 12)
    med = block([(2, 2), (2, 2)], 'ahv', (0,), F) + block([(2, 2), (2, 2)], 'pc', (1,), F3)
    med += block([(2, 2), (2, 2)], 'gv' if not deep else 'gphv', (2,), F3)
    med += block([(1, 1)] * 4, 'hp', (0,), [[2, BIG, 0, False]]) + block([(1, 1)] * 4, 'ac', (1,), F)
    out += group(med, 2)
    big = block([(2, 2), (1, 1), (1, 1)], 'ap' if not deep else 'ahp', (0,), F)
    big += block([(1, 1), (2, 2), (1, 1)], 'hv', (1,), F3)
    big += block([(1, 1), (1, 1), (2, 2)], 'gc' if not deep else 'gpc', (2,), F3)
    for sp in [[('ggg', 'ggg'), ('p', 'h')], [('ggg', 'ggg'), ('h', 'p')], [('ppp', 'hhh'), ('gg', 'gg')],
               [('hhh', 'ppp'), ('gg', 'gg')], [('aaa', 'aaa'), ('aa', 'aa')], [('hhp', 'gpp'), ('aa', 'ga')],
               [('pp', 'hh'), ('gg', 'gg'), ('hh', 'pp')][:2 if not deep else 3],
               [('aaa', 'aa'), ('aa', 'aaa')], [('aaa', 'a'), ('a', 'aaa')]]:
        big.append({'ops': opcases.label(sp, 0), 'opts': F})
        big.append({'ops': opcases.label(sp, 1), 'opts': [[2, BIG, 0, True]]})
    out += big
    # every truncation option
    for sp in [[('g', 'g'), ('p', 'h')], [('g', 'g'), ('g', 'g'), ('g', 'g')], [('aa', 'aa'), ('aa', 'aa')],
               [('gg', 'gg'), ('p', 'h')], [('gg', 'gg'), ('hh', 'pp')], [('aa', 'a'), ('ap', 'aah')],
               [('cv', 'vc'), ('cc', 'vv')], [('a', 'a'), ('aa', 'aa')]]:
        n = sum(len(c) + len(a) for c, a in sp)
        opts = [[cu, hi, lo, ex] for cu in (-1, 0, 1, 2, 3, 4, 7) for hi in range(0, n + 4)
                for lo in range(0, n + 3) for ex in ((True, False) if cu in (1, 3) else (False,))
                if deep or n <= 6 or (hi + lo) % 2 == 0 or abs(hi - lo) <= 1]
        for k in range(0, len(opts), 40):
            out.append({'ops': opcases.label(sp, 0), 'opts': opts[k:k + 40]})
    # exact operator products
    fock = []
    for sp, sizes, ne in [([('g', 'g'), ('g', 'g')], (1, 3, 1), 2), ([('g', ''), ('', 'g')], (1, 3, 1), 2),
                          ([('', 'g'), ('g', '')], (1, 3, 1), 1), ([('g', ''), ('g', ''), ('', 'gg')], (1, 2, 1), 1),
                          ([('', 'g'), ('', 'g'), ('gg', '')], (1, 2, 1), 1), ([('g', 'gg'), ('gg', 'g')], (1, 2, 1), 1),
                          ([('gg', 'gg'), ('g', 'g')], (1, 2, 1), 1), ([('g', 'g'), ('gg', 'gg')], (1, 3, 1), 2),
                          ([('aa', 'aa'), ('aa', 'aa')], (0, 4, 0), 2), ([('gg', 'gg'), ('gg', 'gg')], (1, 2, 1), 1),
                          ([('g', 'g'), ('g', 'g'), ('g', 'g')], (1, 2, 1), 1),
                          ([('a', 'a'), ('aa', 'aa'), ('a', 'a')], (0, 3, 0), 2),
                          ([('a', 'a')] * 4, (0, 3, 0), 1), ([('aaa', 'aaa'), ('aa', 'aa')], (0, 4, 0), 2),
                          ([('pp', 'hh'), ('gg', 'gg')], (1, 2, 1), 1), ([('h', 'p'), ('gg', 'gg'), ('p', 'h')],
                                                                        (1, 2, 1), 1),
                          ([('aaa', 'aa'), ('aa', 'aaa')], (0, 4, 0), 2)]:
        for st in (0, 1):
            fock.append({'ops': opcases.label(sp, st), 'opts': [[0, BIG, 0, st == 0]], 'fock': [sizes, ne]})
    for s, t in [('a', 'a'), ('g', 'g'), ('h', 'p')]:
        fock.append({'ops': [[[[s, 0]], [[s, 0]]], [[[t, 1]], [[t, 1]]]], 'opts': FULL, 'fock': [(1, 3, 1), 2]})
        fock.append({'ops': [[[[s, 0], [t, 1]], [[s, 0], [t, 1]]], [[['g', 2]], [['g', 3]]]], 'opts': FULL,
                     'fock': [(1, 3, 1), 2]})
    if deep:
        for sp, sizes, ne in [([('gg', 'gg'), ('gg', 'gg')], (1, 3, 1), 2), ([('gg', 'gg'), ('p', 'h'), ('h', 'p')],
                                                                            (1, 3, 1), 2),
                              ([('g', 'g')] * 4, (1, 2, 1), 1), ([('aaa', 'aaa'), ('aaa', 'aaa')], (0, 4, 0), 2)]:
            fock.append({'ops': opcases.label(sp, 0), 'opts': F, 'fock': [sizes, ne]})
    # long ones first
    return fock + out[::-1]


def run_case(case):
    res = Result()
    for c in case.get('many', [case]):
        ops = opcases.tup(c['ops'])
        for cu, hi, lo, ex in c['opts']:
            ref, cnt = wick.reference(ops, cu, hi, lo, ex)
            got, n = wickimpl.run_impl(ops, cu, hi, lo, False, ex)
            res.states += cnt
            res.transitions += n
            res.outcomes.add(hash((n, cnt)))
            d = wickimpl.compare(got, ref)
            if d:
                res.fail(f"operators {ops}, max_cu={cu}, max_n_open={hi}, min_n_open={lo}, expand_hole={ex}: {d}")
            if c.get('fock'):
                k, err = fockwick.verify(ops, got, tuple(c['fock'][0]), c['fock'][1])
                res.traces += k
                if err:
                    res.fail(f"operators {ops}: {err}")
        if res.sample is None:
            res.sample = {'operators': str(ops), 'options': c['opts'][0], 'contributions': n,
                          'fock': c.get('fock')}
    return res


if __name__ == '__main__':
    harness.main(globals())
