"""
Reference enumeration of the generalized Wick theorem (Kutzelnigg-Mukherjee normal ordering) from its statement.

The product of normal-ordered operators op_0 op_1 ... is a string of creation / annihilation operators.  A
contraction pattern is a set of disjoint elementary contractions
    one creation of op i with one annihilation of op j, i != j :  lambda_1 if the creation stands left, else eta_1
    k >= 2 creations with k annihilations, not all 2k from one op : lambda_k
and contributes  sign * product of densities * {remaining operators}.  The sign is the parity of bringing the string
into the order  (contracted groups in string order inside, lambda: cre ascending, ann reversed) (open cre)(open ann).

Result: dictionary {key: integer} with key = (frozenset-like sorted tuple of densities, open cre, open ann) in a
canonical index order, so the same contribution written with permuted indices and compensating sign has one key.
Contributions that contain an identically vanishing density are dropped on both sides.
"""
from itertools import combinations

from mc.sem import ELEM, parity_sort

PRIO = {s: i for i, s in enumerate('gphvcaGPHVCA')}


def ikey(i):
    return (PRIO[i[0]], i[1])


def sort_idx(seq):
    order = sorted(range(len(seq)), key=lambda n: ikey(seq[n]))
    s = parity_sort(order)[1]
    return tuple(seq[n] for n in order), s


def overlap(u, l):
    return set(ELEM[u[0]]) & set(ELEM[l[0]])


def zero_density(kind, u, l):
    if kind == 'K':
        return not overlap(u[0], l[0])
    if kind == 'E':
        return not (overlap(u[0], l[0]) & {'a', 'v'})
    if len(u) == 1:
        return not (overlap(u[0], l[0]) & {'c', 'a'})
    return any('a' not in ELEM[i[0]] for i in u + l)


def norm_key(sign, dens, cre, ann):
    """ Canonical key and sign; None when a density vanishes identically. """
    ds = []
    for kind, u, l in dens:
        if zero_density(kind, u, l):
            return None, 0
        u, s1 = sort_idx(u)
        l, s2 = sort_idx(l)
        sign *= s1 * s2
        if kind == 'K' and ikey(l[0]) < ikey(u[0]):
            u, l = l, u                     # the Kronecker delta is symmetric
        ds.append((kind, u, l))
    cre, s1 = sort_idx(cre)
    ann, s2 = sort_idx(ann)
    return (tuple(sorted(ds)), cre, ann), sign * s1 * s2


def elementary(ops, max_cu):
    """ All elementary contractions: (kind, tuple of cre positions, tuple of ann positions). """
    cre, ann = [], []          # (position in string, op, index)
    pos = 0
    for n, (c, a) in enumerate(ops):
        for i in c:
            cre.append((pos, n, i))
            pos += 1
        for i in reversed(a):
            ann.append((pos, n, i))
            pos += 1
    out = []
    for pc, nc, ic in cre:
        for pa, na, ia in ann:
            if nc == na:
                continue
            kind = 'L' if nc < na else 'E'
            if not zero_density(kind, (ic,), (ia,)):
                out.append((kind, ((pc, nc, ic),), ((pa, na, ia),)))
    act_c = [x for x in cre if 'a' in ELEM[x[2][0]]]
    act_a = [x for x in ann if 'a' in ELEM[x[2][0]]]
    kmax = min(len(act_c), len(act_a))
    if max_cu >= 1:
        kmax = min(kmax, max_cu)
    for k in range(2, kmax + 1):
        for cs in combinations(act_c, k):
            for as_ in combinations(act_a, k):
                if len({x[1] for x in cs + as_}) == 1:
                    continue
                out.append(('L', cs, as_))
    return cre, ann, out


def patterns(ops, max_cu, min_con, max_con):
    """ Yield every set of disjoint elementary contractions with min_con <= contracted operators <= max_con. """
    cre, ann, ele = elementary(ops, max_cu)
    masks = []
    for kind, cs, as_ in ele:
        m = 0
        for x in cs + as_:
            m |= 1 << x[0]
        masks.append((m, 2 * len(cs)))

    def rec(start, used, n, chosen):
        if min_con <= n <= max_con:
            yield list(chosen)
        for k in range(start, len(ele)):
            m, sz = masks[k]
            if m & used or n + sz > max_con:
                continue
            chosen.append(ele[k])
            yield from rec(k + 1, used | m, n + sz, chosen)
            chosen.pop()
    yield from rec(0, 0, 0, [])


def contribution(ops_cre, ops_ann, pattern):
    """ (sign, densities, open cre, open ann) of one pattern. """
    order, used, dens = [], set(), []
    for kind, cs, as_ in pattern:
        if kind == 'E':
            order += [as_[0][0], cs[0][0]]
        else:
            order += [x[0] for x in cs]
            order += [x[0] for x in as_]      # as_ is in string order, i.e. reversed index order
        used.update(x[0] for x in cs + as_)
        # lambda^{u1 u2..}_{l1 l2..} belongs to the string u1+ u2+ .. l2 l1
        dens.append((kind, tuple(x[2] for x in cs), tuple(x[2] for x in reversed(as_))))
    oc = [x for x in ops_cre if x[0] not in used]
    oa = [x for x in ops_ann if x[0] not in used]
    order += [x[0] for x in oc] + [x[0] for x in oa]
    sign = parity_sort(order)[1]
    return sign, dens, tuple(x[2] for x in oc), tuple(x[2] for x in reversed(oa))


def connected(pattern, n_ops):
    """ Every operator is contracted, the graph is connected, and not all contractions are k >= 2 cumulants. """
    if not pattern or all(len(cs) > 1 for _, cs, _ in pattern):
        return False
    groups = [{x[1] for x in cs + as_} for _, cs, as_ in pattern]
    comp = set(groups[0])
    rest = groups[1:]
    again = True
    while again:
        again = False
        for g in rest[:]:
            if comp & g:
                comp |= g
                rest.remove(g)
                again = True
    return not rest and len(comp) == n_ops


def in_order_connected(pattern):
    """ The patterns reachable when contractions are added in ascending category order and each must touch the ones
    before it (known finding C02-4ops: the generator only produces these). """
    cats = sorted((2 * len(cs), tuple(x[1] for x in cs) + tuple(x[1] for x in as_))
                  for _, cs, as_ in pattern)
    seen = set(cats[0][1])
    for _, c in cats[1:]:
        if not seen & set(c):
            return False
        seen |= set(c)
    return True


def expand_holes(sign, dens):
    """ eta = delta - lambda_1 """
    outs = [(sign, [])]
    for kind, u, l in dens:
        if kind != 'E':
            outs = [(s, d + [(kind, u, l)]) for s, d in outs]
        else:
            outs = [x for s, d in outs for x in ((s, d + [('K', u, l)]), (-s, d + [('L', u, l)]))]
    return outs


def reference(ops, max_cu=0, max_open=10 ** 6, min_open=0, expand=True, conn=False, keep=None):
    """ The expected result: {key: signed count}, number of patterns. """
    n_idx = sum(len(c) + len(a) for c, a in ops)
    out, count = {}, 0
    cre, ann, _ = elementary(ops, 1)
    for pat in patterns(ops, max_cu, max(0, n_idx - max_open), n_idx - min_open):
        if conn and not connected(pat, len(ops)):
            continue
        if keep is not None and not keep(pat):
            continue
        count += 1
        sign, dens, oc, oa = contribution(cre, ann, pat)
        for s, d in (expand_holes(sign, dens) if expand else [(sign, dens)]):
            k, s = norm_key(s, d, oc, oa)
            if k is not None:
                out[k] = out.get(k, 0) + s
    return out, count
