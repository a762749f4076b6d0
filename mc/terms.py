""" Enumeration of bounded terms: tensor shapes x index connections x space words. """
from fractions import Fraction
from itertools import permutations, product

from mc.sem import ELEM


def slots_of(tensors, op):
    """ tensors: list of (kind, name, n_upper, n_lower); op: (n_cre, n_ann).
    Slots (owner, side, position); owner -1 is the operator; side 'u' (upper, creation) or 'l'. """
    out = []
    for n, (_, _, nu, nl) in enumerate(tensors):
        out += [(n, 'u', k) for k in range(nu)] + [(n, 'l', k) for k in range(nl)]
    out += [(-1, 'u', k) for k in range(op[0])] + [(-1, 'l', k) for k in range(op[1])]
    return out


def pairings(slots, ok):
    """ All perfect matchings of the slots whose pairs satisfy ok. """
    if not slots:
        yield []
        return
    first, rest = slots[0], slots[1:]
    for n, s in enumerate(rest):
        if ok(first, s):
            for m in pairings(rest[:n] + rest[n + 1:], ok):
                yield [(first, s)] + m


def not_self(a, b):
    return a[0] != b[0]


def upper_lower(a, b):
    """ Tensor upper with tensor lower or annihilation; tensor lower with creation. """
    if a[0] == b[0]:
        return False
    ta = a[1] if a[0] >= 0 else ('l' if a[1] == 'l' else 'u')
    tb = b[1] if b[0] >= 0 else ('l' if b[1] == 'l' else 'u')
    return ta != tb


def density_chain(tensors, pairs):
    """ True if two deltas/densities share an index, or one of them joins two antisymmetric indices of one object. """
    to = {}
    for a, b in pairs:
        to[a], to[b] = b, a
    for n, t in enumerate(tensors):
        if t[0] in 'KEL' and t[2] == 1 and to[(n, 'u', 0)][:2] == to[(n, 'l', 0)][:2]:
            return True
    return any(tensors[a[0]][0] in 'KLE' and tensors[b[0]][0] in 'KLE' for a, b in pairs if a[0] >= 0 and b[0] >= 0)


def spaces_ok(tensors, up, low):
    """ The domain of the simplifier: deltas and densities that are not identically zero, amplitudes that the
    constructor accepts. """
    for n, (kind, _, nu, nl) in enumerate(tensors):
        u = [ELEM[s.lower()] for s in up[n]]
        l = [ELEM[s.lower()] for s in low[n]]
        if kind in 'KLE' and any(a.isupper() != b.isupper() for a, b in zip(sorted(up[n], key=str.isupper),
                                                                           sorted(low[n], key=str.isupper))):
            return False
        if kind == 'K' and not set(u[0]) & set(l[0]):
            return False
        if kind == 'E' and not set(u[0]) & set(l[0]) & set('av'):
            return False
        if kind == 'L':
            if nu == 1:
                if not set(u[0]) & set(l[0]) & set('ca'):
                    return False
            elif any('a' not in x for x in u + l):
                return False
        if kind == 'T':
            for half in (up[n], low[n]):
                t = {s.lower() for s in half}
                if t & {'h', 'c'} and t & {'p', 'v'}:
                    return False
        if kind in 'TH' and sum(s.isupper() for s in up[n]) != sum(s.isupper() for s in low[n]):
            return False
    return True


def number(pairs, word, style):
    """ Index of every slot: (space, number). style 0: numbers count up per space, 1: count down, 2: one global
    counter with a stride. """
    out = {}
    n = len(pairs)
    per = {}
    for k, ((a, b), s) in enumerate(zip(pairs, word)):
        if style == 0:
            i = per.get(s, 0)
            per[s] = i + 1
        elif style == 1:
            i = n - 1 - k
        else:
            i = (3 * k + 1) % (n if n % 3 else n + 1) + 7
        out[a] = out[b] = (s, i)
    return out


def build(tensors, op, pairs, word, style=0, coeff=Fraction(1), mode='so'):
    """ Plain term or None when outside the domain. """
    idx = number(pairs, word, style)
    up = [[idx[(n, 'u', k)] for k in range(t[2])] for n, t in enumerate(tensors)]
    low = [[idx[(n, 'l', k)] for k in range(t[3])] for n, t in enumerate(tensors)]
    if not spaces_ok(tensors, [[s for s, _ in x] for x in up], [[s for s, _ in x] for x in low]):
        return None
    cre = tuple(idx[(-1, 'u', k)] for k in range(op[0]))
    ann = tuple(idx[(-1, 'l', k)] for k in range(op[1]))
    if len(set(cre) | set(ann)) != len(cre) + len(ann):
        return None
    return (coeff, tuple((t[0], t[1], tuple(u), tuple(l)) for t, u, l in zip(tensors, up, low)), cre, ann, mode)


def shape(text):
    """ 'H2 T1 L1' -> tensor shapes """
    names = {'H': 'H', 'T': 'T', 'L': 'L', 'K': 'K', 'E': 'C', 'X': 'Tensor', 'S': 'S'}
    return [('T' if w[0] == 'S' else w[0], names[w[0]], int(w[1]), int(w[1])) for w in text.split()]


def family(text, op, alphabet, styles=(0,), any_side=False, mode='so', limit=None):
    """ All terms of the family as plain terms. """
    ts = shape(text)
    slots = slots_of(ts, op)
    for m in pairings(slots, not_self if any_side else upper_lower):
        if density_chain(ts, m):
            continue
        for w in product(alphabet, repeat=len(m)):
            for st in styles:
                t = build(ts, op, m, w, st, Fraction(3, 7), mode)
                if t is not None:
                    yield t


def canonical_pairings(text, op, any_side=False):
    """ Pairings up to permutations inside the antisymmetric groups and of equal tensors (one representative). """
    ts = shape(text)
    slots = slots_of(ts, op)
    seen = set()
    groups = {}
    for n, t in enumerate(ts):
        groups.setdefault(t, []).append(n)
    relabels = []
    for perm in product(*[list(permutations(g)) for g in groups.values()]):
        r = {}
        for g, p in zip(groups.values(), perm):
            r.update(dict(zip(g, p)))
        relabels.append(r)
    for m in pairings(slots, not_self if any_side else upper_lower):
        if density_chain(ts, m):
            continue
        key = min(tuple(sorted(tuple(sorted(((r.get(a[0], -1), a[1]), (r.get(b[0], -1), b[1])))) for a, b in m))
                  for r in relabels)
        if key not in seen:
            seen.add(key)
            yield m
