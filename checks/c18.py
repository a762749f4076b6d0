""" C18: nested commutators and BCH expansions agree with their definition. """
from fractions import Fraction
from itertools import product
from math import factorial, comb

import _path  # noqa
from mc import harness, conv, alg, wick
from mc.harness import Result
from mc.fock import lin, comm
from mc.sem import P, diff_keys
from dsrg_generator.phys_op_contraction import nested_commutator_cc, bch_cc_rsc, recursive_single_commutator

PID = 'C18'
LEVEL = 'model_checking'
RULE = ("every listed nesting level x cluster ranks x single-/multireference x unitary x connected-only x hole form x "
        "open-index window, and every listed tuple of terms; states = operator matrix elements compared, transitions = "
        "terms produced, traces = expansions compared with exact nested Fock-space commutators")
ASSUMPTIONS = ["all-active amplitudes are zero (the code's convention); tensors Hermitian iff the option says so",
               "generic values over GF(2^31-1) decide polynomial identity on the listed reference states"]
BIG = 10 ** 6


def cases(tier):
    deep = tier == 'thorough'
    out = []

    def add(kind, cost, **k):
        out.append(dict(kind=kind, cost=cost, **k))

    SR = [[3, 0, 3], 0]
    SRA = [[1, 2, 2], 1]
    MR = [[1, 2, 1], 1]
    MR3 = [[1, 3, 1], 2]
    for sr in (True, False):
        for un in (False, True):
            for cl in ([1], [2], [1, 2], [2, 1]):
                for fc in (True, False):
                    for lv in (1, 2, 3, 4):
                        heavy = 2 in cl
                        if lv == 4 and (heavy or un or not sr):
                            if not (deep and cl == [1]):
                                continue
                        if lv == 3 and heavy:
                            if not (sr and not un and fc) and not deep:
                                continue
                            if not sr or un:
                                continue
                        if lv == 3 and not sr and un and not fc and not deep:
                            continue
                        if lv == 2 and heavy and not sr and not deep:
                            continue
                        if lv == 2 and heavy and not sr and (un or not fc):
                            continue
                        if cl == [2, 1] and lv > 1 and not deep:
                            continue
                        if lv == 2 and heavy and un and not fc and not deep:
                            continue
                        for r in ([SR, SRA] if sr else [MR, MR3] if lv < 3 or deep else [MR]):
                            if r is SRA and (lv > 2 or heavy and lv > 1):
                                continue
                            if r is MR3 and lv == 2 and un and not deep:
                                continue
                            if r is MR and heavy and lv > 1 and not deep:
                                continue
                            add('cc', lv ** 3 * (3 if heavy else 1) * (1 if sr else 2) * (2 if un else 1), sr=sr,
                                un=un, cl=cl, fc=fc, lv=lv, ref=r)
                        if lv == 4 or (lv == 3 and heavy and not deep):
                            continue
                        if lv == 2 and heavy and not sr:
                            continue
                        r = SR if sr else (MR3 if heavy or lv == 1 else MR)
                        add('rsc', lv ** 3 * (4 if heavy else 1) * (3 if not sr else 1) * (2 if un else 1), sr=sr, un=un,
                            cl=cl, fc=fc, lv=lv, ref=r)
    # deeper recursion and triple excitations
    for un, fc in product((False, True), repeat=2):
        add('rsc', 64, sr=True, un=un, cl=[1], fc=fc, lv=4, ref=SR)
        add('rsc', 64, sr=True, un=un, cl=[1], fc=fc, lv=5, ref=SR)
        for cl in ([3], [1, 3], [3, 2]):
            add('rsc', 12, sr=True, un=un, cl=cl, fc=fc, lv=1, ref=SR)
            add('cc', 30, sr=True, un=un, cl=cl, fc=fc, lv=1, ref=SR)
        if deep:
            add('cc', 30, sr=False, un=un, cl=[3], fc=fc, lv=1, ref=[[2, 2, 2], 1])
    one = [alg.one('g', 'g'), alg.one('a', 'h'), alg.amp(1), alg.amp(1, exc=False, coeff=-1), alg.one('a', 'v', 'X')]
    two = [alg.two('gg', 'gg'), alg.amp(2), alg.two('aa', 'ga'), alg.amp(2, exc=False)]
    for a, b in product(one + two, repeat=2):
        add('rec', len(a[2]) + len(b[2]), terms=[conv.jterm(t) for t in (a, b)], ref=MR)
    for a, b, c in product(one + two[:3 if not deep else 4], repeat=3):
        if [len(x[2]) for x in (a, b, c)].count(2) <= 1:
            add('rec', 4, terms=[conv.jterm(t) for t in (a, b, c)], ref=MR)
    for a, b, c, d in product(one[:4], repeat=4):
        add('rec', 4, terms=[conv.jterm(t) for t in (a, b, c, d)], ref=MR)
    for n, c in enumerate(out):
        c['n'] = n
        c['deep'] = deep
    out.sort(key=lambda c: -c['cost'])
    return out


def amplitudes(cl, sr, un):
    h, p = ('c', 'v') if sr else ('h', 'p')
    out = [alg.amp(k, h, p) for k in cl]
    if un:
        out += [alg.amp(k, h, p, exc=False, coeff=Fraction(-1, factorial(k) ** 2)) for k in cl]
    return out


H = [alg.one('g', 'g'), alg.two('gg', 'gg')]


def nested(R, lv, cl, sr, un):
    """ Exact matrices of H, [H, A], [[H, A], A] / 2, ... """
    m, a = R.mat(H), R.mat(amplitudes(cl, sr, un))
    out = [m]
    for k in range(1, lv + 1):
        m = lin((pow(k, P - 2, P), comm(m, a)))
        out.append(m)
    return out


def known_deviation(R, lv, cl, sr, un, cu, hi, lo, ex):
    """ The operator that the recorded finding (C18-3nested) gives: the products of the expanded nested commutator with
    only the contractions that are connected in ascending category order. """
    amps = amplitudes(cl, sr, un)
    total = {}
    for k in range(lv + 1):
        sign = (-1) ** k * comb(lv, k)
        for h in H:
            for w in product(amps, repeat=lv):
                seq = [alg.shift(t, 20 * (n + 1)) for n, t in enumerate(w[:k])] + [h] + \
                      [alg.shift(t, 20 * (n + k + 1)) for n, t in enumerate(w[k:])]
                coeff = Fraction(sign, factorial(lv))
                tensors = ()
                for t in seq:
                    coeff *= t[0]
                    tensors += t[1]
                ref, _ = wick.reference([(t[2], t[3]) for t in seq], cu, hi, lo, ex, conn=True,
                                        keep=wick.in_order_connected)
                for (dens, oc, oa), s in ref.items():
                    if s:
                        ds = tuple((x[0], {'K': 'K', 'L': 'L', 'E': 'C'}[x[0]], x[1], x[2]) for x in dens)
                        R.M.eval_term((coeff * s, tensors + ds, oc, oa, 'so'), total)
    return {k: v for k, v in total.items() if v % P}


def same(res, what, got, exp):
    res.traces += 1
    return res.check(got == exp, lambda: f"{what}: {diff_keys(got, exp)} (key, got, expected)")


def run_cc(res, case, R):
    lv, cl, sr, un, fc = (case[k] for k in ('lv', 'cl', 'sr', 'un', 'fc'))
    exp = nested(R, lv, cl, sr, un)[-1]
    finding = fc and lv >= 3 and (un or not sr)
    what = f"nested_commutator_cc({lv}, {cl}, single_reference={sr}, unitary={un}, for_commutator={fc})"
    kw = dict(for_commutator=fc, single_reference=sr, unitary=un)
    got = alg.plains(nested_commutator_cc(lv, cl, 0, BIG, 0, **kw))
    op = R.op(got)
    m = R.mat_of(op)
    res.states += len(set(m) | set(exp))
    res.transitions += len(got)
    res.outcomes.add(hash(frozenset(m.items())))
    if m != exp and finding:
        if same(res, what + ' (neither exact nor the recorded deviation)', op,
                known_deviation(R, lv, cl, sr, un, 0, BIG, 0, True)):
            res.known.append('C18-3nested')
            res.bump('expansions with the known deviation')
    else:
        same(res, what, m, exp)
    res.sample = {'expansion': what, 'terms': len(got), 'matrix elements': len(exp)}
    if case['cost'] > 60 and not case['deep']:
        return
    # the other options give the same operator or the requested part of it
    for lo, hi in ((0, 0), (2, 2), (2, 4)):
        g = alg.plains(nested_commutator_cc(lv, cl, 0, hi, lo, **kw))
        res.transitions += len(g)
        same(res, f"open indices {lo}..{hi} of {what}", R.op(g), alg.window(op, lo, hi))
    if case['cost'] > 20 and not case['deep']:
        return
    g = alg.plains(nested_commutator_cc(lv, cl, 0, BIG, 0, expand_hole=False, **kw))
    same(res, f"hole densities kept in {what}", R.op(g), op)
    for cu in (1, 2):
        R2 = alg.ref(*case['ref'], True, cu)
        g = alg.plains(nested_commutator_cc(lv, cl, cu, BIG, 0, **kw))
        same(res, f"cumulants limited to {cu} in {what}", R2.op(g), R2.op(got))
    if not finding:
        RN = alg.ref(*case['ref'], False)
        g = alg.plains(nested_commutator_cc(lv, cl, 0, BIG, 0, hermitian_tensor=False, **kw))
        same(res, f"non-Hermitian tensors in {what}", RN.mat(g), nested(RN, lv, cl, sr, un)[-1])


def run_rsc(res, case, R):
    lv, cl, sr, un, fc = (case[k] for k in ('lv', 'cl', 'sr', 'un', 'fc'))
    what = f"bch_cc_rsc({lv}, {cl}, single_reference={sr}, unitary={un}, for_commutator={fc})"
    kw = dict(for_commutator=fc, single_reference=sr, unitary=un)
    exp = nested(R, lv, cl, sr, un)
    out = bch_cc_rsc(lv, cl, 0, (0, BIG), **kw)
    res.check(sorted(out) == list(range(lv + 1)), f"{what}: levels {sorted(out)}")
    ops = []
    for k in range(lv + 1):
        got = alg.plains(out[k])
        ops.append(R.op(got))
        m = R.mat_of(ops[-1])
        res.states += len(set(m) | set(exp[k]))
        res.transitions += len(got)
        res.outcomes.add(hash(frozenset(m.items())))
        same(res, f"level {k} of {what}", m, exp[k])
    res.sample = {'expansion': what, 'terms': {k: len(v) for k, v in out.items()}}
    if case['cost'] > 60 and not case['deep']:
        return
    # windows: the last level is cut; earlier levels feed the next one as they are
    wins = [(0, BIG)] * (lv - 1) + [(0, 2)]
    cut = bch_cc_rsc(lv, cl, [0] * lv, wins, **kw)
    for k in range(lv + 1):
        same(res, f"level {k} of {what} with windows {wins}", R.op(alg.plains(cut[k])),
             alg.window(ops[k], *wins[k - 1]) if k else ops[0])
    if case['cost'] > 12 and not case['deep']:
        return
    if lv > 1:
        wins = [(0, 4)] + [(2, 4)] * (lv - 1)
        cut = bch_cc_rsc(lv, cl, 0, wins, expand_hole=False, **kw)
        a = R.mat(amplitudes(cl, sr, un))
        got = [R.op(alg.plains(cut[k])) for k in range(lv + 1)]
        same(res, f"level 1 of {what} with windows {wins}", got[1], alg.window(ops[1], 0, 4))
        # level k is the window of the commutator of the truncated level k - 1; the part outside the window is found
        # from the operator itself, so compare through an unrestricted last step
        for k in range(2, lv + 1):
            free = bch_cc_rsc(k, cl, 0, wins[:k - 1] + [(0, BIG)], **kw)
            f = R.op(alg.plains(free[k]))
            same(res, f"level {k} of {what} on a truncated level", R.mat_of(f),
                 lin((pow(k, P - 2, P), comm(R.mat_of(got[k - 1]), a))))
            same(res, f"level {k} of {what} with windows {wins}", got[k], alg.window(f, *wins[k - 1]))
    RN = alg.ref(*case['ref'], False)
    o = bch_cc_rsc(lv, cl, 0, (0, BIG), hermitian_tensor=False, **kw)
    e = nested(RN, lv, cl, sr, un)
    for k in range(lv + 1):
        same(res, f"non-Hermitian tensors in level {k} of {what}", RN.mat(alg.plains(o[k])), e[k])


def run_rec(res, case, R):
    ts = [alg.shift(conv.unj(t), 20 * k) for k, t in enumerate(case['terms'])]
    what = f"recursive_single_commutator({[conv.show(t) for t in ts]})"
    ms = [R.mat([t]) for t in ts]
    n = len(ts) - 1
    fc = case['n'] % 2 == 0
    out = recursive_single_commutator([conv.real(t) for t in ts], 0, (0, BIG), for_commutator=fc)
    res.check(all(k in range(1, n + 1) for k in out), f"{what}: levels {sorted(out)}")
    cur = ms[0]
    ops = [None]
    for k in range(1, n + 1):
        cur = comm(cur, ms[k])
        got = alg.plains(out[k])
        ops.append(R.op(got))
        m = R.mat_of(ops[-1])
        res.states += len(set(m) | set(cur))
        res.transitions += len(got)
        res.outcomes.add(hash(frozenset(m.items())))
        same(res, f"level {k} of {what} connected={fc}", m, cur)
    wins = [(0, BIG)] * (n - 1) + [(2, 2)]
    cut = recursive_single_commutator([conv.real(t) for t in ts], [0] * n, wins, for_commutator=not fc,
                                      expand_hole=bool(case['n'] % 3))
    for k in range(1, n + 1):
        same(res, f"level {k} of {what} with windows {wins}", R.op(alg.plains(cut[k])), alg.window(ops[k], *wins[k - 1]))
    if n > 1:
        # a truncated earlier level: its result is the input of the next level
        wins = [(0, 2)] * (n - 1) + [(0, BIG)]
        cut = recursive_single_commutator([conv.real(t) for t in ts], 0, wins, for_commutator=fc)
        prev = ms[0]
        for k in range(1, n + 1):
            got = R.op(alg.plains(cut[k]))
            exp = comm(prev, ms[k])
            if k == n:
                same(res, f"level {k} of {what} with windows {wins}", R.mat_of(got), exp)
            elif k == 1:
                same(res, f"level {k} of {what} with windows {wins}", got, alg.window(ops[1], 0, 2))
            prev = R.mat_of(got)
    if res.sample is None and case['n'] % 50 == 0:
        res.sample = {'commutator': what, 'terms': {k: len(v) for k, v in out.items()}}


def run_case(case):
    res = Result()
    R = alg.ref(*case['ref'])
    {'cc': run_cc, 'rsc': run_rsc, 'rec': run_rec}[case['kind']](res, case, R)
    return res


if __name__ == '__main__':
    harness.main(globals())
