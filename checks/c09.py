""" C09: declared tensor symmetry groups are exactly the physical ones. """
from collections import deque
from itertools import permutations, product

import _path  # noqa
from mc import harness, conv
from mc.harness import Result
from sympy.combinatorics import Permutation

PID = 'C09'
LEVEL = 'model_checking'
RULE = ("for every rank, index kind, object kind and option: breadth-first closure of the returned generators (every "
        "reachable signed permutation) compared with the directly enumerated set of signed permutations that leave the "
        "object invariant; base checked to be a base and the generators strong relative to it. states = group "
        "elements, transitions = products, traces = groups compared")
ASSUMPTIONS = ["slots are numbered lower indices first, then upper indices; the last two points carry the sign"]


def closure(gens, n, res):
    e = tuple(range(n))
    seen = {e}
    todo = deque([e])
    while todo:
        g = todo.popleft()
        for h in gens:
            k = tuple(g[i] for i in h)
            res.transitions += 1
            if k not in seen:
                seen.add(k)
                todo.append(k)
    return seen


def par(p):
    return sum(p[i] > p[j] for i in range(len(p)) for j in range(i + 1, len(p))) % 2


def uneven(nu, nl):
    """ Signed permutations of nl + nu antisymmetric slots (lower first). """
    n = nu + nl
    return {tuple(p + tuple(nl + i for i in q) + ((n + 1, n) if par(p) ^ par(q) else (n, n + 1)))
            for p in permutations(range(nl)) for q in permutations(range(nu))}


def wanted(n, mode, herm, operator):
    """ Signed permutations of the 2n slots (lower first). """
    out = set()
    if mode == 'sa' and operator:
        return {tuple(range(2 * n + 2))}
    for flip in ((False, True) if herm and not operator else (False,)):
        lo, up = list(range(n)), list(range(n, 2 * n))
        if flip:
            lo, up = up, lo
        if mode == 'sa':
            for p in permutations(range(n)):
                out.add(tuple([lo[i] for i in p] + [up[i] for i in p] + [2 * n, 2 * n + 1]))
        else:
            for p in permutations(range(n)):
                for q in permutations(range(n)):
                    s = par(p) ^ par(q)
                    out.add(tuple([lo[i] for i in p] + [up[i] for i in q]
                                  + ([2 * n + 1, 2 * n] if s else [2 * n, 2 * n + 1])))
    return out


def cases(tier):
    out = []
    top = 5 if tier == "thorough" else 4
    for n in range(1, top + 1):
        for mode in ('so', 'si', 'sa'):
            for herm in (True, False):
                for kind in ('H', 'T', 'L', 'X', 'K', 'E', 'op', 'pair'):
                    if kind in 'KE' and n > 1 or kind == "pair" and mode == "so" and n > 4:
                        continue
                    out.append({'n': n, 'mode': mode, 'herm': herm, 'kind': kind})
    for nu, nl in product(range(top + 1), repeat=2):
        if nu != nl:
            out += [{'n': max(nu, nl), 'nu': nu, 'nl': nl, 'mode': mode, 'kind': kind, 'herm': False}
                    for mode in ('so', 'si') for kind in ('op', 'pair')]
    out.sort(key=lambda c: -c['n'])
    return out


def run_case(case):
    res = Result()
    n, mode, herm, kind = case['n'], case['mode'], case['herm'], case['kind']
    nu, nl = case.get('nu', n), case.get('nl', n)
    words = [[('g', i) for i in range(n)]]
    if mode == 'si':
        words += [[('G' if b else 'g', i) for i, b in enumerate(w)] for w in product((0, 1), repeat=n) if any(w)]
    for w in words:
        u = tuple(w)[:nu]
        l = tuple((s, i + 10) for s, i in w)[:nl]
        if kind == 'op':
            x = conv.real_op(u, l, mode)
            base, gens = x.base_strong_generating_set()
        elif kind == 'pair':
            x = conv.IndicesPair(conv.ind(u, mode), conv.ind(l, mode))
            base, gens = x.base_strong_generating_set(hermitian=herm)
        else:
            x = conv.real_tensor((kind, conv.KIND_NAME[kind], u, l), mode)
            base, gens = x.base_strong_generating_set(hermitian=herm)
        size = nu + nl + 2
        gl = []
        for g in gens:
            a = list(g.array_form)
            if len(a) > size:
                res.fail(f"{x}: generator of size {len(a)}")
                return res
            gl.append(tuple(a + list(range(len(a), size))))
        got = closure(gl, size, res)
        want = wanted(n, mode, herm, kind == 'op') if nu == nl else uneven(nu, nl)
        res.states += len(got)
        res.traces += 1
        if got != want:
            extra, missing = sorted(got - want)[:2], sorted(want - got)[:2]
            res.fail(f"{kind} {x} ({mode}, hermitian {herm}): group of order {len(got)} instead of {len(want)}; "
                     f"extra {extra}, missing {missing}")
            continue
        # the generators are strong relative to the base: at every level the generators that fix the first base points
        # generate the full pointwise stabilizer, and only the identity fixes the whole base
        for k in range(len(base) + 1):
            pts = list(base)[:k]
            stab = {g for g in got if all(g[b] == b for b in pts)}
            sub = closure([g for g in gl if all(g[b] == b for b in pts)], size, res)
            res.traces += 1
            if sub != stab:
                res.fail(f"{kind} {x} ({mode}, hermitian {herm}): the generators are not strong relative to {base}")
            if k == len(base) and len(stab) != 1:
                res.fail(f"{kind} {x} ({mode}, hermitian {herm}): {base} is not a base")
        if kind == 'pair' and nu != nl:      # different ranks cannot be Hermitian
            try:
                x.base_strong_generating_set(hermitian=True)
                res.fail(f"{x}: a Hermitian symmetry group for different numbers of upper and lower indices")
            except ValueError:
                pass
        res.outcomes.add((len(got), len(base)))
        res.sample = {'object': str(x), 'mode': mode, 'hermitian': herm, 'order': len(got), 'base': list(base)}
    return res


if __name__ == '__main__':
    harness.main(globals())
