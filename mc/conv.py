""" Conversion between the real objects of dsrg_generator and plain data. """
from fractions import Fraction

from mc import harness  # noqa: F401  (puts /repo on sys.path)
from dsrg_generator.Index import Index
from dsrg_generator.Indices import (Indices, IndicesSpinOrbital, IndicesSpinIntegrated, IndicesSpinAdapted)
from dsrg_generator.IndicesPair import IndicesPair
from dsrg_generator.SQOperator import SecondQuantizedOperator
from dsrg_generator.Tensor import Tensor, Cumulant, HoleDensity, Kronecker, ClusterAmplitude, HamiltonianTensor
from dsrg_generator.Term import Term
from mc.sem import to_frac

KIND_CLS = {'K': Kronecker, 'L': Cumulant, 'E': HoleDensity, 'T': ClusterAmplitude, 'H': HamiltonianTensor,
            'X': Tensor}
KIND_NAME = {'K': 'K', 'L': 'L', 'E': 'C', 'T': 'T', 'H': 'H', 'X': 'Tensor'}
MODES = {'so': IndicesSpinOrbital, 'si': IndicesSpinIntegrated, 'sa': IndicesSpinAdapted}


def kind_of(t):
    for k in 'KLETH':
        if isinstance(t, KIND_CLS[k]):
            return k
    return 'X'


def mode_of(itype):
    for k, v in MODES.items():
        if itype is v:
            return k
    raise harness.Violation(f"unknown indices type {itype}")


def idx(i):
    return (i.space, i.number)


def plain_tensor(t):
    return (kind_of(t), t.name, tuple(idx(i) for i in t.upper_indices.indices),
            tuple(idx(i) for i in t.lower_indices.indices))


def plain(term):
    """ Real Term -> plain term. """
    op = term.sq_op
    return (to_frac(term.coeff), tuple(plain_tensor(t) for t in term.list_of_tensors),
            tuple(idx(i) for i in op.cre_ops.indices), tuple(idx(i) for i in op.ann_ops.indices),
            mode_of(op.indices_type))


def ind(seq, mode='so'):
    return Indices.make_indices([f"{s}{n}" for s, n in seq], mode)


def real_tensor(t, mode='so'):
    kind, name, u, l = t
    return KIND_CLS[kind](ind(u, mode), ind(l, mode), name=name)


def real_op(cre, ann, mode='so'):
    return SecondQuantizedOperator(ind(cre, mode), ind(ann, mode))


def real(pt):
    """ Plain term -> fresh real Term (nothing shared with other objects). """
    coeff, tensors, cre, ann, mode = pt
    return Term([real_tensor(t, mode) for t in tensors], real_op(cre, ann, mode), float(coeff))


def P_(text):
    """ 'g0,v1' -> (('g',0),('v',1)) """
    text = text.strip()
    if not text:
        return ()
    return tuple((w.strip()[0], int(w.strip()[1:])) for w in text.split(','))


def pt(coeff, tensors, cre='', ann='', mode='so'):
    """ Shorthand: pt('1/4', ['H g2,g3 g0,g1', 'T h0 p0'], 'g0,g1,p0', ...) """
    ts = []
    for t in tensors:
        w = t.split()
        k = w[0]
        kind, name = (k[0], k[2:]) if ':' in k else (k, KIND_NAME[k])
        ts.append((kind, name, P_(w[1] if len(w) > 1 else ''), P_(w[2] if len(w) > 2 else '')))
    return (Fraction(coeff), tuple(ts), P_(cre), P_(ann), mode)


def show(pt_):
    c, ts, cre, ann, mode = pt_

    def f(s):
        return ','.join(f"{a}{n}" for a, n in s)
    return f"{c} " + ' '.join(f"{n}^({f(u)})_({f(l)})" for k, n, u, l in ts) + f" a^({f(cre)})_({f(ann)}) [{mode}]"


def jterm(pt_):
    """ JSON form. """
    c, ts, cre, ann, mode = pt_
    return [str(c), [[k, n, list(map(list, u)), list(map(list, l))] for k, n, u, l in ts],
            list(map(list, cre)), list(map(list, ann)), mode]


def unj(j):
    c, ts, cre, ann, mode = j
    tup = lambda s: tuple((a, n) for a, n in s)
    return (Fraction(c), tuple((k, n, tup(u), tup(l)) for k, n, u, l in ts), tup(cre), tup(ann), mode)
