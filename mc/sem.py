"""
The meaning of the symbolic objects, evaluated exactly over the prime field GF(P).

A *plain term* is
    (coeff: Fraction, tensors: tuple of (kind, name, upper, lower), cre, ann, mode)
with upper/lower/cre/ann tuples of (space letter, number) and kind one of
    K (Kronecker) L (cumulant) E (hole density) T (amplitude) H (Hamiltonian) X (other tensor).
mode: 'so', 'si', 'sa'.

Its meaning in a Model (a finite set of orbitals for every elementary space, a value for every tensor element) is the
operator obtained by summing every index over its orbital space:  a dictionary
    {(creation orbitals ascending, annihilation orbitals ascending): coefficient mod P}
over normal-ordered operator strings, which are antisymmetric in their creation and in their annihilation orbitals.
Two terms are equal as operators iff their dictionaries agree (for generic tensor values; the values are
pseudo-random elements of GF(P) that obey exactly the symmetries the code is entitled to assume, so two different
polynomials agree with probability < degree / P ~ 1e-8).
"""
import hashlib
from fractions import Fraction
from itertools import permutations, product

P = (1 << 31) - 1

ELEM = {'c': 'c', 'a': 'a', 'v': 'v', 'p': 'av', 'h': 'ca', 'g': 'cav'}


def parity_sort(seq):
    """ (sorted tuple, sign) or (None, 0) with a repeated entry. """
    s = list(seq)
    sign = 1
    n = len(s)
    for i in range(1, n):
        j = i
        while j > 0 and s[j - 1] > s[j]:
            s[j - 1], s[j] = s[j], s[j - 1]
            sign = -sign
            j -= 1
        if j > 0 and s[j - 1] == s[j]:
            return None, 0
    return tuple(s), sign


def frac_mod(f):
    return f.numerator % P * pow(f.denominator % P, P - 2, P) % P


def to_frac(x):
    return Fraction(x).limit_denominator(10 ** 8)


class Model:
    """
    Orbitals and tensor values.
    :param sizes: number of (core, active, virtual) orbitals; with spin=True of each spin
    :param hermitian: tensors H, T, L are symmetric under the exchange of upper and lower indices
    :param t_active: value given to all-active amplitudes (False: zero)
    :param core_delta: one-body cumulant of core orbitals is the unit matrix
    """

    def __init__(self, sizes, hermitian=True, t_active=False, spin=False, seed='m', spin_conserving=True):
        self.sizes = sizes
        self.hermitian = hermitian
        self.t_active = t_active
        self.spin = spin
        self.seed = seed
        self.spin_conserving = spin_conserving
        self.orbs = {}
        self.space_of = {}
        self.beta = set()
        n = 0
        for s, k in zip('cav', sizes):
            self.orbs[s] = tuple(range(n, n + k))
            for o in self.orbs[s]:
                self.space_of[o] = s
            n += k
        self.n_alpha = n
        if spin:
            for s, k in zip('cav', sizes):
                self.orbs[s.upper()] = tuple(range(n, n + k))
                for o in self.orbs[s.upper()]:
                    self.space_of[o] = s
                    self.beta.add(o)
                n += k
        self.n_orb = n
        self._val = {}
        self._blocks = {}
        self.override = {}       # (kind, n_body) -> function(upper, lower) -> value

    # -- orbital ranges of a label
    def range_of(self, label, mode):
        low = label.lower()
        up = label.isupper()
        out = []
        for e in ELEM[low]:
            if not self.spin or mode == 'sa':
                out += self.orbs[e]
            elif mode == 'so':
                out += self.orbs[e] + self.orbs[e.upper()]
            else:
                out += self.orbs[e.upper() if up else e]
        return tuple(sorted(out))

    def prand(self, key):
        d = hashlib.blake2b(repr((self.seed, key)).encode(), digest_size=8).digest()
        return int.from_bytes(d, 'big') % (P - 1) + 1

    def value(self, kind, name, u, l):
        """ Antisymmetric tensor element. """
        k = (kind, name, u, l)
        v = self._val.get(k)
        if v is None:
            v = self._val[k] = self._value(kind, name, u, l)
        return v

    def _value(self, kind, name, u, l):
        if kind == 'K':
            return 1 if u == l else 0
        if kind == 'E':
            return ((1 if u == l else 0) - self.value('L', 'L', u, l)) % P
        su, s1 = parity_sort(u)
        sl, s2 = parity_sort(l)
        if s1 == 0 or s2 == 0:
            return 0
        if self.spin and self.spin_conserving:
            if sum(o in self.beta for o in u) != sum(o in self.beta for o in l):
                return 0
        sp = [self.space_of[o] for o in u + l]
        if kind == 'L':
            if len(u) == 1:
                if 'v' in sp or sp[0] != sp[1]:
                    return 0
                if sp[0] == 'c':
                    return 1 if u == l else 0
            elif any(s != 'a' for s in sp):
                return 0
        if kind == 'T' and not self.t_active and all(s == 'a' for s in sp):
            return 0
        sign = s1 * s2
        f = self.override.get((kind, len(u)))
        if f is not None:
            return sign * f(su, sl) % P
        if self.hermitian and name[0] != '~' and len(su) == len(sl) and sl < su:
            su, sl = sl, su
        return sign * self.prand((kind, name, su, sl)) % P

    def value_sa(self, kind, name, u, l):
        """ Spin-free (singlet) tensor element: symmetric under simultaneous permutations of the columns. """
        k = ('sa', kind, name, u, l)
        v = self._val.get(k)
        if v is not None:
            return v
        if kind == 'K':
            v = 1 if u == l else 0
        elif kind == 'X':
            v = self.prand(k)
        else:
            cols = tuple(sorted(zip(u, l)))
            if self.hermitian and name[0] != '~':
                cols = min(cols, tuple(sorted(zip(l, u))))
            sp = [self.space_of[o] for o in u + l]
            v = self.prand(('sa', kind, name, cols))
            if kind == 'L':
                if len(u) == 1:
                    if 'v' in sp or sp[0] != sp[1]:
                        v = 0
                    elif sp[0] == 'c':
                        v = 1 if u == l else 0
                elif any(s != 'a' for s in sp):
                    v = 0
            if kind == 'T' and not self.t_active and all(s == 'a' for s in sp):
                v = 0
        self._val[k] = v
        return v

    def block(self, kind, name, su, sl, mode):
        """ Nonzero elements of a tensor block as a list of (orbital tuple, value). """
        key = (kind, name, su, sl, mode)
        b = self._blocks.get(key)
        if b is None:
            f = self.value_sa if mode == 'sa' else self.value
            ru = [self.range_of(s, mode) for s in su]
            rl = [self.range_of(s, mode) for s in sl]
            b = []
            for u in product(*ru):
                for l in product(*rl):
                    v = f(kind, name, u, l)
                    if v:
                        b.append((u + l, v))
            self._blocks[key] = b
        return b

    # -- meaning of a plain term
    def eval_term(self, term, out=None, as_array=False):
        coeff, tensors, cre, ann, mode = term
        if out is None:
            out = {}
        c0 = frac_mod(coeff)
        if c0 == 0:
            return out
        keep = list(cre) + list(ann)
        idx, table = self.contract(tensors, mode, keep)
        # open indices that occur only in the operator (never in our terms) range freely
        missing = [i for i in dict.fromkeys(keep) if i not in idx]
        for i in missing:
            r = self.range_of(i[0], mode)
            table = {k + (o,): v for k, v in table.items() for o in r}
            idx = idx + [i]
        pos = {i: n for n, i in enumerate(idx)}
        pc = [pos[i] for i in cre]
        pa = [pos[i] for i in ann]
        if as_array:
            for k, v in table.items():
                key = (tuple(k[i] for i in pc), tuple(k[i] for i in pa))
                out[key] = (out.get(key, 0) + v * c0) % P
            return out
        for k, v in table.items():
            a, s1 = parity_sort([k[i] for i in pc])
            if s1 == 0:
                continue
            b, s2 = parity_sort([k[i] for i in pa])
            if s2 == 0:
                continue
            key = (a, b)
            out[key] = (out.get(key, 0) + s1 * s2 * v * c0) % P
        return out

    def contract(self, tensors, mode, keep):
        """ Multiply the tensors and sum every index that is not in keep. """
        todo = list(tensors)
        idx, table = [], {(): 1}
        # greedy order: most shared indices first
        while todo:
            best = max(range(len(todo)), key=lambda n: (len(set(todo[n][2] + todo[n][3]) & set(idx)), -len(todo[n][2])))
            kind, name, u, l = todo.pop(best)
            tidx = list(u) + list(l)
            block = self.block(kind, name, tuple(i[0] for i in u), tuple(i[0] for i in l), mode)
            # repeated index inside the tensor (diagonal)
            uniq = list(dict.fromkeys(tidx))
            if len(uniq) != len(tidx):
                first = [tidx.index(i) for i in uniq]
                eq = [(n, tidx.index(i)) for n, i in enumerate(tidx) if tidx.index(i) != n]
                block = [(tuple(k[f] for f in first), v) for k, v in block if all(k[a] == k[b] for a, b in eq)]
                tidx = uniq
            shared = [i for i in tidx if i in idx]
            rest = set(keep)
            for t in todo:
                rest.update(t[2])
                rest.update(t[3])
            new_idx = [i for i in idx if i in rest] + [i for i in tidx if i in rest and i not in idx]
            sp_t = [tidx.index(i) for i in shared]
            sp_c = [idx.index(i) for i in shared]
            src = [(0, idx.index(i)) if i in idx else (1, tidx.index(i)) for i in new_idx]
            c_pos = [n for w, n in src if w == 0]
            t_pos = [n for w, n in src if w == 1]
            groups = {}
            for k, v in block:
                g = groups.setdefault(tuple(k[n] for n in sp_t), {})
                kk = tuple(k[n] for n in t_pos)
                g[kk] = (g.get(kk, 0) + v) % P
            # pre-sum the table over its dropped indices is done while accumulating
            cur = {}
            for k, v in table.items():
                kk = (tuple(k[n] for n in sp_c), tuple(k[n] for n in c_pos))
                cur[kk] = (cur.get(kk, 0) + v) % P
            new = {}
            for (sk, ck), v in cur.items():
                g = groups.get(sk)
                if not g:
                    continue
                for tk, w in g.items():
                    kk = ck + tk
                    new[kk] = (new.get(kk, 0) + v * w) % P
            idx, table = new_idx, new
        drop = [i for i in idx if i not in keep]
        if drop:
            pos = [n for n, i in enumerate(idx) if i in keep]
            new = {}
            for k, v in table.items():
                kk = tuple(k[n] for n in pos)
                new[kk] = (new.get(kk, 0) + v) % P
            idx, table = [i for i in idx if i in keep], new
        return idx, table

    def eval_terms(self, terms):
        out = {}
        for t in terms:
            self.eval_term(t, out)
        return clean(out)


def clean(d):
    return {k: v for k, v in d.items() if v % P}


def scaled(d, c):
    c = frac_mod(Fraction(c))
    return clean({k: v * c % P for k, v in d.items()})


def added(*ds):
    out = {}
    for d in ds:
        for k, v in d.items():
            out[k] = (out.get(k, 0) + v) % P
    return clean(out)


def diff_keys(a, b, n=3):
    return [(k, a.get(k, 0), b.get(k, 0)) for k in sorted(set(a) | set(b), key=repr) if a.get(k, 0) != b.get(k, 0)][:n]
