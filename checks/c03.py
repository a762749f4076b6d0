""" C03: commutators of operator terms are algebraically exact. """
from fractions import Fraction

import _path  # noqa
from mc import harness, conv, alg
from mc.harness import Result
from mc.fock import mul, lin, comm
from mc.sem import scaled, diff_keys, added
from dsrg_generator.phys_op_contraction import single_commutator, linear_commutator, contract_terms

PID = 'C03'
LEVEL = 'model_checking'
RULE = ("every ordered pair of the term alphabet (all one-body space blocks, amplitudes, two-body blocks, products "
        "with densities) on every listed reference state x option; states = operator matrix elements compared, "
        "transitions = terms produced, traces = commutators and products compared with exact Fock-space matrices")
ASSUMPTIONS = ["particle-number conserving terms with disjoint index labels",
               "tensors Hermitian iff the option says so; all-active amplitudes are zero (the code's convention)",
               "generic values over GF(2^31-1) decide polynomial identity"]
BIG = 10 ** 6
SP = 'gphvca'


def one_body():
    out = [alg.one(s, t) for s in SP for t in SP]
    out += [alg.one(s, t, 'X') for s in 'ga' for t in 'gp']
    for h in 'hca':
        for p in 'pva':
            if h + p != 'aa':
                out += [alg.amp(1, h, p), alg.amp(1, h, p, exc=False, coeff='-2/3')]
    out += [conv.pt('1/2', ['H g2,p0 g0,h0', 'T h0 p0'], 'g0', 'g2'),
            conv.pt('-1', ['H g1,a1 g0,a0', 'L a0 a1'], 'g0', 'g1'),
            conv.pt('1/2', ['T h0,a0 p0,a1', 'L a1 a0'], 'p0', 'h0'),
            conv.pt('1/4', ['H a2,a3 a0,g0', 'T a4,h0 a1,p0', 'L a0,a1 a2,a4'], 'g0,p0', 'a3,h0'),
            conv.pt('3', ['H h1 h0', 'L h0 h1'], '', ''),
            conv.pt('1/4', ['H p0,p1 h0,h1', 'T h0,h1 p0,p1'], '', '')]
    return out


def two_body():
    out = [alg.two('gg', 'gg'), alg.two('gg', 'gg', 'X'), alg.amp(2), alg.amp(2, exc=False), alg.amp(2, 'c', 'v'),
           alg.amp(2, 'c', 'v', exc=False, coeff='-1/4'), alg.two('ga', 'ap'), alg.two('hp', 'ph'), alg.two('aa', 'aa'),
           alg.two('pp', 'hh'), alg.two('cv', 'ga'), alg.two('ah', 'va'),
           conv.pt('1/2', ['T h0,a0 p0,p1'], 'p0,p1', 'h0,a0'),
           conv.pt('-1/2', ['T c0,a0 p0,a1'], 'p0,a1', 'c0,a0'),
           conv.pt('1/4', ['H g2,p0 g0,g1', 'T h0 p0'], 'g0,g1', 'g2,h0')]
    return out


def J(ts):
    return [conv.jterm(t) for t in ts]


def cases(tier):
    deep = tier == 'thorough'
    o, t = one_body(), two_body()
    out = []
    for a in o:
        out.append({'left': conv.jterm(a), 'rights': J(o), 'ref': [[1, 2, 1], 1], 'opts': 'all'})
        out.append({'left': conv.jterm(a), 'rights': J(t), 'ref': [[1, 2, 1], 1], 'opts': 'basic'})
    for a in t:
        out.append({'left': conv.jterm(a), 'rights': J(o), 'ref': [[1, 2, 1], 1], 'opts': 'basic'})
    for a in t:
        for b in t:
            out.append({'left': conv.jterm(a), 'rights': J([b]), 'ref': [[1, 3, 1], 2] if not deep else [[2, 3, 1], 2],
                        'opts': 'two' if not deep else 'all'})
    # bilinearity over lists, nested, products of three
    lists = [[alg.one('g', 'g'), alg.two('gg', 'gg')], [alg.amp(1), alg.amp(1, exc=False, coeff=-1)],
             [alg.amp(2), alg.amp(1)], [alg.one('h', 'p', 'X'), alg.one('a', 'a')]]
    for a in lists:
        for b in lists:
            out.append({'lists': [J(a), J(b)], 'ref': [[1, 2, 1], 1]})
    tri = [alg.one('g', 'g'), alg.one('a', 'h'), alg.amp(1), alg.amp(1, exc=False), alg.one('a', 'v', 'X'),
           alg.two('aa', 'ga')]
    for a in tri:
        for b in tri:
            for c in tri:
                if [len(x[2]) for x in (a, b, c)].count(2) <= (1 if not deep else 2):
                    out.append({'triple': J([a, b, c]), 'ref': [[1, 2, 1], 1]})
    for n, c in enumerate(out):
        c['n'] = n
        if 'left' in c:
            c['deep'] = deep
    out.sort(key=lambda c: -(c.get('opts') == 'two'))
    return out


def tag(t):
    return conv.show(t)


def same(res, what, got, exp):
    if got != exp:
        res.fail(f"{what}: {diff_keys(got, exp)} (key, got, expected)")


def run_case(case):
    res = Result()
    sizes, ne = case['ref']
    R = alg.ref(sizes, ne)
    if 'triple' in case:
        run_triple(res, R, [alg.shift(conv.unj(t), 20 * k) for k, t in enumerate(case['triple'])])
        return res
    if 'lists' in case:
        A = [conv.unj(t) for t in case['lists'][0]]
        B = [alg.shift(conv.unj(t), 20) for t in case['lists'][1]]
        ma, mb = R.mat(A), R.mat(B)
        for f in (True, False):
            got = alg.plains(linear_commutator([conv.real(t) for t in A], [conv.real(t) for t in B], -0.5, 0, BIG, 0,
                                               for_commutator=f))
            res.transitions += len(got)
            m = R.mat(got)
            e = lin((-pow(2, -1, alg_P), comm(ma, mb)))
            res.states += len(set(m) | set(e))
            res.traces += 1
            same(res, f"linear_commutator({[tag(t) for t in A]}, {[tag(t) for t in B]})", m, e)
            win = alg.plains(linear_commutator([conv.real(t) for t in A], [conv.real(t) for t in B], 2.0, 2, 4, 0,
                                               for_commutator=f))
            same(res, "open-index window of linear_commutator", R.op(win), alg.window(scaled(R.op(got), -4), 2, 4))
        return res
    a = conv.unj(case['left'])
    da = R.op([a])
    ma = R.mat_of(da)
    opts = case['opts']
    deep = case.get('deep')
    turn = case['n']
    for jb in case['rights']:
        turn += 1
        # the quick tier rotates the secondary options over the pairs
        sec = {0, 1, 2, 3} if deep else {turn % 4}
        b = alg.shift(conv.unj(jb), 20)
        mb = R.mat([b])
        exp = comm(ma, mb)
        what = f"[{tag(a)}, {tag(b)}]"
        got = alg.plains(single_commutator(conv.real(a), conv.real(b), 0, BIG, 0))
        op = R.op(got)
        m = R.mat_of(op)
        res.states += len(set(m) | set(exp))
        res.transitions += len(got)
        res.traces += 1
        res.outcomes.add(hash(frozenset(m.items())))
        same(res, what, m, exp)
        if res.sample is None:
            res.sample = {'commutator': what, 'terms': len(got), 'matrix elements': len(exp)}
        # the other order, the other selection, the other form of hole densities
        g2 = alg.plains(single_commutator(conv.real(b), conv.real(a), (0, 9, len(a[2]) + len(b[2]))[turn % 3], BIG, 0, -3.0,
                                          for_commutator=False))
        same(res, f"antisymmetry and connected selection of {what}", R.op(g2), scaled(op, 3))
        res.traces += 1
        if 1 in sec and opts != 'two':
            g3 = alg.plains(single_commutator(conv.real(a), conv.real(b), 0, BIG, 0, 0.5, True, False))
            same(res, f"hole densities kept in {what}", R.op(g3), scaled(op, Fraction(1, 2)))
        if 2 in sec and a[2] and b[2]:
            # plain product
            prod = alg.plains(contract_terms([conv.real(a), conv.real(b)], 0, BIG, 0))
            same(res, f"product {tag(a)} * {tag(b)}", R.mat(prod), mul(ma, mb))
            res.transitions += len(prod)
        for lo, hi in ([(0, 0), (2, 2), (2, 4)] if opts == 'all' else [(0, 2), (4, 4)]):
            if 3 not in sec:
                break
            for f in (True, False) if deep else ((lo == 2),):
                g = alg.plains(single_commutator(conv.real(a), conv.real(b), 0, hi, lo, for_commutator=f))
                # a scalar factor times an operator is returned whole
                if not a[2] or not b[2]:
                    continue
                same(res, f"open indices {lo}..{hi} of {what} connected={f}", R.op(g), alg.window(op, lo, hi))
                res.traces += 1
        if opts != 'basic' and (deep or len(a[2]) + len(b[2]) > 2):
            for cu in (1, 2):
                R2 = alg.ref(sizes, ne, True, cu)
                g = alg.plains(single_commutator(conv.real(a), conv.real(b), cu, BIG, 0, for_commutator=(cu == 2)))
                same(res, f"cumulants limited to {cu} in {what}", R2.op(g), R2.op(got))
                res.traces += 1
        # tensors without Hermitian symmetry
        if 0 not in sec:
            continue
        RN = alg.ref(sizes, ne, False)
        g = alg.plains(single_commutator(conv.real(a), conv.real(b), 0, BIG, 0, hermitian_tensor=False))
        same(res, f"non-Hermitian tensors in {what}", RN.mat(g), comm(RN.mat([a]), RN.mat([b])))
        res.traces += 1
    return res


def run_triple(res, R, abc):
    A, B, C = abc
    ms = [R.mat([t]) for t in abc]
    prod = alg.plains(contract_terms([conv.real(t) for t in abc], 0, BIG, 0, 2.0))
    e = lin((2, mul(mul(ms[0], ms[1]), ms[2])))
    m = R.mat(prod)
    same(res, f"product of {[tag(t) for t in abc]}", m, e)
    res.states += len(set(m) | set(e))
    res.transitions += len(prod)
    tot = {}
    for k in range(3):
        x, y, z = (k, (k + 1) % 3, (k + 2) % 3)
        inner = single_commutator(conv.real(abc[x]), conv.real(abc[y]), 0, BIG, 0)
        outer = alg.plains(linear_commutator(inner, [conv.real(alg.shift(abc[z], 20))], 1.0, 0, BIG, 0))
        op = R.op(outer)
        same(res, f"[[{tag(abc[x])}, {tag(abc[y])}], {tag(abc[z])}]", R.mat_of(op), comm(comm(ms[x], ms[y]), ms[z]))
        tot = added(tot, op)
        res.transitions += len(outer)
        res.traces += 1
    res.check(not tot, f"Jacobi identity of {[tag(t) for t in abc]}")
    # connected part of the product, antisymmetrized, is the nested commutator
    got = []
    for sgn, order in ((1, (0, 1, 2)), (-1, (1, 0, 2)), (-1, (2, 0, 1)), (1, (2, 1, 0))):
        got += alg.plains(contract_terms([conv.real(abc[i]) for i in order], 0, BIG, 0, float(sgn), True))
    same(res, f"connected products for {[tag(t) for t in abc]}", R.mat(got), comm(comm(ms[0], ms[1]), ms[2]))
    res.traces += 1


from mc.sem import P as alg_P  # noqa: E402

if __name__ == '__main__':
    harness.main(globals())
