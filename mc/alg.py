""" Operator algebra of whole terms: plain terms -> operator dictionaries -> exact Fock matrices with the densities of
the reference state. """
from mc import conv
from mc.fock import Fock
from mc.sem import Model, clean

_cache = {}


class Ref:
    """ A reference state with its density cumulants, and generic tensors on its orbitals. """

    def __init__(self, sizes, n_act, hermitian=True, max_cu=None, seed='m'):
        self.F = Fock(tuple(sizes), n_act)
        self.M = Model(tuple(sizes), hermitian=hermitian, seed=seed)
        for k in range(1, sizes[1] + 1):
            if max_cu is not None and k > max_cu >= 1:
                self.M.override[('L', k)] = lambda u, l: 0
            else:
                self.M.override[('L', k)] = self.F.lam

    def op(self, terms):
        """ {(cre, ann): coefficient} of a list of plain terms. """
        return self.M.eval_terms(terms)

    def mat(self, terms):
        return self.F.matrix(self.op(terms))

    def mat_of(self, opdict):
        return self.F.matrix(opdict)


def ref(sizes, n_act, hermitian=True, max_cu=None):
    k = (tuple(sizes), n_act, hermitian, max_cu)
    if k not in _cache:
        _cache[k] = Ref(*k)
    return _cache[k]


def plains(terms):
    return [conv.plain(t) for t in terms]


def window(opdict, lo, hi):
    return clean({k: v for k, v in opdict.items() if lo <= len(k[0]) + len(k[1]) <= hi})


def shift(term, n):
    """ Add n to every index number. """
    c, ts, cre, ann, mode = term
    f = lambda s: tuple((a, b + n) for a, b in s)
    return (c, tuple((k, nm, f(u), f(l)) for k, nm, u, l in ts), f(cre), f(ann), mode)


def one(s1, s2, kind='H', n=0, coeff='1'):
    """ X^{s2}_{s1} a^{s1}_{s2} """
    return conv.pt(coeff, [f'{kind} {s2}{n + 1} {s1}{n}'], f'{s1}{n}', f'{s2}{n + 1}')


def two(c, a, kind='H', n=0, coeff='1/4'):
    i = [f'{s}{n + k}' for k, s in enumerate(c + a)]
    return conv.pt(coeff, [f"{kind} {','.join(i[2:])} {','.join(i[:2])}"], ','.join(i[:2]), ','.join(i[2:]))


def amp(k, h='h', p='p', exc=True, n=0, coeff=None, name='T'):
    from fractions import Fraction
    from math import factorial
    hs = ','.join(f'{h}{n + i}' for i in range(k))
    ps = ','.join(f'{p}{n + i}' for i in range(k))
    c = Fraction(1, factorial(k) ** 2) if coeff is None else Fraction(coeff)
    return conv.pt(c, [f'T:{name} {hs} {ps}'], ps if exc else hs, hs if exc else ps)
