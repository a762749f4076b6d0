"""
Exact second quantization on a small Fock space over GF(P).

Orbitals 0..n-1 (core, active, virtual), a correlated reference state (core filled, virtual empty, active part an
arbitrary mixed state that conserves the number of electrons), its reduced density matrices and cumulants, and the
matrix of every Kutzelnigg-Mukherjee normal-ordered operator {a^P_Q}.  Everything is computed from the definition:
    a^P_Q = sum over S in P, R in Q, |S| = |R| of  sign * <a^S_R> {a^{P-S}_{Q-R}}
so nothing here shares code or conventions with the generator.
"""
from itertools import combinations

from mc.sem import P, parity_sort


def inv(x):
    return pow(x, P - 2, P)


class Fock:
    def __init__(self, sizes, n_act, seed=7):
        nc, na, nv = sizes
        self.n = nc + na + nv
        self.dim = 1 << self.n
        self.sizes = sizes
        # reference: a mixed state over every number of active electrons (a pure state of so few orbitals is a
        # determinant after an orbital rotation and would have no cumulants beyond the first)
        core = (1 << nc) - 1
        states = []
        x = seed + 101 * n_act
        tr = 0
        for ne in range(na + 1):
            for _ in range(1 if ne in (0, na) else 2):
                psi = {}
                for occ in combinations(range(nc, nc + na), ne):
                    x = (x * 1103515245 + 12345) % P
                    d = core
                    for o in occ:
                        d |= 1 << o
                    psi[d] = x
                x = (x * 1103515245 + 12345) % P
                states.append((x, psi))
                tr = (tr + x * sum(v * v for v in psi.values())) % P
        assert tr
        # the (symmetric) density matrix {(row, column): value} of trace one
        self.rho = {}
        f = inv(tr)
        for w, psi in states:
            for i, v in psi.items():
                for j, u in psi.items():
                    self.rho[(i, j)] = (self.rho.get((i, j), 0) + w * f % P * v % P * u) % P
        self._bare, self._gno, self._g, self._lam = {}, {}, {}, {}

    # single operators on a determinant: (new determinant, sign) or None
    @staticmethod
    def _cre(d, o):
        if d >> o & 1:
            return None
        return d | 1 << o, -1 if bin(d & ((1 << o) - 1)).count('1') & 1 else 1

    @staticmethod
    def _ann(d, o):
        if not d >> o & 1:
            return None
        return d & ~(1 << o), -1 if bin(d & ((1 << o) - 1)).count('1') & 1 else 1

    def bare(self, cre, ann):
        """ a^+_c1 a^+_c2 ... a_an ... a_a1  as {column: (row, value)}. """
        key = (cre, ann)
        m = self._bare.get(key)
        if m is None:
            m = {}
            for d in range(self.dim):
                cur, s = d, 1
                for o in ann:                 # rightmost operator a_a1 acts first
                    r = self._ann(cur, o)
                    if r is None:
                        s = 0
                        break
                    cur, t = r
                    s *= t
                if not s:
                    continue
                for o in reversed(cre):
                    r = self._cre(cur, o)
                    if r is None:
                        s = 0
                        break
                    cur, t = r
                    s *= t
                if s:
                    m[d] = (cur, s % P)
            self._bare[key] = m
        return m

    def gamma(self, cre, ann):
        """ <a^cre_ann> """
        if len(cre) != len(ann):
            return 0
        key = (cre, ann)
        g = self._g.get(key)
        if g is None:
            m = self.bare(cre, ann)
            g = 0
            for d, (r, v) in m.items():
                g += v * self.rho.get((d, r), 0)
            g = self._g[key] = g % P
        return g

    def lam(self, cre, ann):
        """ Cumulant of the (ascending) index tuples: the fully connected part of gamma. """
        k = len(cre)
        if k == 1:
            return self.gamma(cre, ann)
        key = (cre, ann)
        v = self._lam.get(key)
        if v is None:
            v = self.gamma(cre, ann)
            first, others = cre[0], cre[1:]
            for m in range(0, k - 1):
                for sel in combinations(range(len(others)), m):
                    s = (first,) + tuple(others[i] for i in sel)
                    prest = tuple(o for i, o in enumerate(others) if i not in sel)
                    s1 = parity_sort([cre.index(o) for o in s + prest])[1]
                    for rsel in combinations(range(k), m + 1):
                        r = tuple(ann[i] for i in rsel)
                        rrest = tuple(ann[i] for i in range(k) if i not in rsel)
                        s2 = parity_sort([ann.index(o) for o in r + rrest])[1]
                        v -= s1 * s2 * self.lam(s, r) * self.gamma(prest, rrest)
            v = self._lam[key] = v % P
        return v

    def gno(self, cre, ann):
        """ Matrix of the normal-ordered operator {a^cre_ann} (ascending tuples): {(row, column): value}. """
        key = (cre, ann)
        m = self._gno.get(key)
        if m is None:
            m = {}
            for col, (row, v) in self.bare(cre, ann).items():
                m[(row, col)] = v
            nc, na = len(cre), len(ann)
            for k in range(1, min(nc, na) + 1):
                for si in combinations(range(nc), k):
                    s = tuple(cre[i] for i in si)
                    prest = tuple(cre[i] for i in range(nc) if i not in si)
                    s1 = parity_sort([i for i in range(nc) if i not in si] + list(si))[1]
                    for ri in combinations(range(na), k):
                        r = tuple(ann[i] for i in ri)
                        g = self.gamma(s, r)
                        if not g:
                            continue
                        rrest = tuple(ann[i] for i in range(na) if i not in ri)
                        s2 = parity_sort([i for i in range(na) if i not in ri] + list(ri))[1]
                        f = -s1 * s2 * g % P
                        for rc, v in self.gno(prest, rrest).items():
                            m[rc] = (m.get(rc, 0) + f * v) % P
            m = {k_: v for k_, v in m.items() if v}
            self._gno[key] = m
        return m

    def matrix(self, opdict):
        """ Matrix of a linear combination {(cre, ann): coefficient} of normal-ordered operators. """
        out = {}
        for (c, a), f in opdict.items():
            for rc, v in self.gno(c, a).items():
                out[rc] = (out.get(rc, 0) + f * v) % P
        return {k: v for k, v in out.items() if v}

    def gno_of_sequence(self, cre, ann):
        """ {a^cre_ann} for tuples in any order. """
        c, s1 = parity_sort(cre)
        a, s2 = parity_sort(ann)
        if not s1 * s2:
            return {}
        return {k: s1 * s2 * v % P for k, v in self.gno(c, a).items()}


def mul(a, b):
    rows = {}
    for (r, c), v in b.items():
        rows.setdefault(r, []).append((c, v))
    out = {}
    for (r, k), v in a.items():
        for c, w in rows.get(k, ()):
            out[(r, c)] = (out.get((r, c), 0) + v * w) % P
    return {k: v for k, v in out.items() if v}


def lin(*pairs):
    out = {}
    for f, m in pairs:
        f %= P
        for k, v in m.items():
            out[k] = (out.get(k, 0) + f * v) % P
    return {k: v for k, v in out.items() if v}


def comm(a, b):
    return lin((1, mul(a, b)), (-1, mul(b, a)))
