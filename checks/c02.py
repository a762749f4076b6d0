""" C02: commutator mode keeps exactly the connected contributions with at least one pairwise contraction. """
import _path  # noqa
from mc import harness
from mc import wick, wickimpl, opcases
from mc.harness import Result
from c01 import block, group

PID = 'C02'
LEVEL = 'model_checking'
RULE = ("every list of 2-4 operator shapes x MO-space words x label styles x truncation options in the stated "
        "alphabets; states = connected contraction patterns enumerated by the reference, transitions = contributions "
        "produced by the real code and compared, traces = operator lists replayed on the real code")
ASSUMPTIONS = ["operators of one list carry pairwise distinct index labels (diagonal operators excepted)",
               "spin-orbital indices (the code rejects others)"]
BIG = 10 ** 6
FULL = [[0, BIG, 0, True], [0, BIG, 0, False]]
F = [[0, BIG, 0, False]]
F3 = [[3, BIG, 0, True]]
F2 = [[2, BIG, 0, False]]


def cases(tier):
    deep = tier == 'thorough'
    out = []
    small = block([(1, 1), (1, 1)], 'gphvca', (0, 1), FULL)
    odd = [(1, 0), (0, 1), (2, 0), (0, 2), (2, 1), (1, 2)]
    for s in odd:
        for t in odd + [(1, 1)]:
            small += block([s, t], 'ahv', (0, 2), FULL[:1])
            if t == (1, 1):
                small += block([t, s], 'ahp', (1,), FULL[1:])
    for s in [(1, 0), (0, 1)]:
        for t in [(1, 0), (0, 1), (1, 1)]:
            for u in [(1, 0), (0, 1), (1, 1)]:
                small += block([s, t, u], 'agp', (0,), F)
    small += block([(1, 1)] * 3, 'aphcv' if not deep else 'gphvca', (0,), F)
    small += block([(1, 1)] * 3, 'gh', (1, 2), FULL[:1])
    small += block([(2, 2), (1, 1)], 'gphvca', (0,), F)
    small += block([(1, 1), (2, 2)], 'apcv' if not deep else 'gphvca', (1,), F)
    for s in 'gphvca':
        for t in 'gphvca':
            small.append({'ops': [[[[s, 0]], [[s, 0]]], [[[t, 1]], [[t, 1]]]], 'opts': FULL})
            small.append({'ops': [[[[s, 0], [t, 1]], [[s, 0], [t, 1]]], [[['g', 2]], [['g', 3]]]], 'opts': FULL})
            small.append({'ops': [[[['g', 2]], [['g', 3]]], [[[s, 0], [t, 1]], [[t, 1], [s, 0]]]], 'opts': FULL})
    out += group(small, 12)
    med = block([(2, 2), (2, 2)], 'ahv', (0,), F) + block([(2, 2), (2, 2)], 'pc', (1,), F3)
    med += block([(2, 2), (2, 2)], 'gv' if not deep else 'gphv', (2,), F3)
    med += block([(2, 2), (1, 1), (1, 1)], 'ap' if not deep else 'ahpv', (0,), F)
    med += block([(1, 1), (2, 2), (1, 1)], 'hv', (1,), F3)
    med += block([(1, 1), (1, 1), (2, 2)], 'gc' if not deep else 'gpc', (2,), F3)
    # four operators (known finding)
    med += block([(1, 1)] * 4, 'hp', (0,), F2) + block([(1, 1)] * 4, 'av', (1,), F)
    med += block([(1, 1)] * 4, 'cv', (1,), F3)
    for sp in [[('gg', 'gg'), ('v', 'c'), ('v', 'c'), ('v', 'c')], [('v', 'c'), ('gg', 'gg'), ('c', 'v'), ('v', 'c')],
               [('v', 'c'), ('v', 'c'), ('g', 'g'), ('v', 'c')], [('vv', 'cc'), ('gg', 'gg'), ('c', 'v'), ('c', 'v')]]:
        for st in (0, 1):
            med.append({'ops': opcases.label(sp, st), 'opts': [[3, 4, 0, True]]})
    out += group(med, 2)
    big = []
    for sp in [[('ggg', 'ggg'), ('p', 'h')], [('ggg', 'ggg'), ('h', 'p')], [('ppp', 'hhh'), ('gg', 'gg')],
               [('hhh', 'ppp'), ('gg', 'gg')], [('aaa', 'aaa'), ('aa', 'aa')], [('hhp', 'gpp'), ('aa', 'ga')],
               [('aaa', 'aa'), ('aa', 'aaa')], [('aaa', 'a'), ('a', 'aaa')],
               [('ggg', 'ggg'), ('vv', 'cc')], [('vvv', 'ccc'), ('gg', 'gg')]]:
        big.append({'ops': opcases.label(sp, 0), 'opts': F})
        big.append({'ops': opcases.label(sp, 1), 'opts': [[2, BIG, 0, True]]})
    for sp in [[('gg', 'gg'), ('pp', 'hh'), ('p', 'h')], [('gg', 'gg'), ('pp', 'hh'), ('h', 'p')],
               [('p', 'h'), ('gg', 'gg'), ('hh', 'pp')], [('gg', 'gg'), ('pp', 'hh'), ('pp', 'hh')]]:
        big.append({'ops': opcases.label(sp, 0), 'opts': [[2, 4, 0, False]] if len(sp[2][0]) == 1 or deep
                    else [[2, 2, 0, False]]})
        big.append({'ops': opcases.label(sp, 2), 'opts': [[1, 6, 2, True]]})
    big.append({'ops': opcases.label([('v', 'c'), ('gg', 'gg'), ('vv', 'cc'), ('c', 'v')], 0), 'opts': [[1, 4, 0, True]]})
    out += big
    for sp in [[('g', 'g'), ('p', 'h')], [('g', 'g'), ('g', 'g'), ('g', 'g')], [('aa', 'aa'), ('aa', 'aa')],
               [('gg', 'gg'), ('p', 'h')], [('gg', 'gg'), ('hh', 'pp')], [('aa', 'a'), ('ap', 'aah')],
               [('cv', 'vc'), ('cc', 'vv')], [('a', 'a'), ('aa', 'aa')], [('a', 'a'), ('gg', 'gg'), ('p', 'h')]]:
        n = sum(len(c) + len(a) for c, a in sp)
        opts = [[cu, hi, lo, ex] for cu in (-1, 0, 1, 2, 3, 4, 7) for hi in range(0, n + 4)
                for lo in range(0, n + 3) for ex in ((True, False) if cu in (1, 3) else (False,))
                if deep or n <= 6 or (hi + lo) % 2 == 0 or abs(hi - lo) <= 1]
        for k in range(0, len(opts), 40):
            out.append({'ops': opcases.label(sp, 0), 'opts': opts[k:k + 40]})
    if deep:
        out += group(block([(1, 1)] * 4, 'ahv', (0,), F3), 8)
        out += block([(2, 2), (1, 1), (1, 1), (1, 1)], 'a', (0,), [[2, 4, 0, False]])
        out += group(block([(2, 2), (2, 2), (1, 1)], 'av', (0,), [[2, 6, 0, False]]), 2)
    return out[::-1]


def run_case(case):
    res = Result()
    for c in case.get('many', [case]):
        ops = opcases.tup(c['ops'])
        for cu, hi, lo, ex in c['opts']:
            ref, cnt = wick.reference(ops, cu, hi, lo, ex, conn=True)
            got, n = wickimpl.run_impl(ops, cu, hi, lo, True, ex)
            res.states += cnt
            res.transitions += n
            res.traces += 1
            res.outcomes.add(hash((n, cnt)))
            d = wickimpl.compare(got, ref)
            if d and len(ops) >= 4:
                known, kcnt = wick.reference(ops, cu, hi, lo, ex, conn=True, keep=wick.in_order_connected)
                if wickimpl.compare(got, known) is None:
                    res.known.append('C02-4ops')
                    res.bump('lists with the known deviation')
                    d = None
            if d:
                res.fail(f"operators {ops}, max_cu={cu}, max_n_open={hi}, min_n_open={lo}, expand_hole={ex}: {d}")
        if res.sample is None:
            res.sample = {'operators': str(ops), 'options': c['opts'][0], 'contributions': n}
    return res


if __name__ == '__main__':
    harness.main(globals())
