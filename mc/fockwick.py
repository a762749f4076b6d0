""" Compare symbolic contraction results with exact operator products on a small Fock space. """
from itertools import combinations, product

from mc.fock import Fock, mul
from mc.sem import ELEM, P, parity_sort

_cache = {}


def get(sizes, n_act):
    k = (tuple(sizes), n_act)
    if k not in _cache:
        _cache[k] = Fock(tuple(sizes), n_act)
    return _cache[k]


def ranges(sizes):
    nc, na, nv = sizes
    e = {'c': range(nc), 'a': range(nc, nc + na), 'v': range(nc + na, nc + na + nv)}
    return {s: [o for x in ELEM[s] for o in e[x]] for s in ELEM}


def assignments(ops, sizes):
    """ All orbital assignments, up to permutations inside a group of equivalent positions (same op, same kind, same
    space), for which the operators do not vanish. """
    r = ranges(sizes)
    groups = []
    for c, a in ops:
        for half in (c, a):
            by = {}
            for i in half:
                by.setdefault(i[0], []).append(i)
            for s, idxs in by.items():
                groups.append([dict(zip(idxs, comb)) for comb in combinations(r[s], len(idxs))])
    diag = any(set(c) & set(a) for c, a in ops)
    for choice in product(*groups):
        m = {}
        ok = True
        for d in choice:
            for k, v in d.items():
                if diag and m.get(k, v) != v:
                    ok = False
                m[k] = v
        if ok:
            yield m


def density(F, kind, u, l):
    if kind == 'K':
        return 1 if u == l else 0
    if kind == 'E':
        return ((1 if u == l else 0) - F.gamma(u, l)) % P
    su, s1 = parity_sort(u)
    sl, s2 = parity_sort(l)
    if not s1 * s2:
        return 0
    return s1 * s2 * F.lam(su, sl) % P


def verify(ops, result, sizes, n_act):
    """ Number of assignments checked; raises AssertionError text as return value on failure. """
    F = get(sizes, n_act)
    terms = [(k[0], k[1], k[2], v) for k, v in result.items() if v]
    n = 0
    for m in assignments(ops, sizes):
        n += 1
        prod = None
        for c, a in ops:
            x = F.gno_of_sequence(tuple(m[i] for i in c), tuple(m[i] for i in a))
            prod = x if prod is None else mul(prod, x)
        exp = {}
        for dens, oc, oa, s in terms:
            f = s % P
            for kind, u, l in dens:
                f = f * density(F, kind, tuple(m[i] for i in u), tuple(m[i] for i in l)) % P
                if not f:
                    break
            if not f:
                continue
            for rc, v in F.gno_of_sequence(tuple(m[i] for i in oc), tuple(m[i] for i in oa)).items():
                exp[rc] = (exp.get(rc, 0) + f * v) % P
        exp = {k: v for k, v in exp.items() if v}
        if exp != prod:
            return n, f"orbital assignment {m}: the sum of the contractions is not the operator product"
    return n, None
