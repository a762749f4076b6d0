""" C21: results do not depend on the history of calls on shared objects. """
import contextlib
import copy
import os
import pickle
import struct
import sys
from itertools import combinations, product
from types import GeneratorType

import _path  # noqa
from mc import harness, conv
from mc.harness import Result, captured
from mc.sem import Model, diff_keys
import dsrg_generator.mo_space as mo_space
from dsrg_generator.Index import Index
from dsrg_generator.Indices import Indices
from dsrg_generator.IndicesPair import IndicesPair
from dsrg_generator.SQOperator import SecondQuantizedOperator
from dsrg_generator.Tensor import Tensor
from dsrg_generator.Term import Term, hamiltonian_operator, cluster_operator
from dsrg_generator.mo_space import MOSpaceCounter
from dsrg_generator.sqop_contraction import compute_operator_contractions
import dsrg_generator.phys_op_contraction as poc

PID = 'C21'
LEVEL = 'model_checking'
RULE = ("every sequence of two operations of the alphabet and every sequence of three whose first two can leave traces "
        "(in-place, contraction, printing), on a pool of terms that share index, index-list, tensor and operator "
        "objects; every interleaving of two lazily evaluated results, and every operation at every point of a lazily "
        "evaluated result; every query around one and two in-place changes. states = histories, transitions = operations executed, traces = results compared with the "
        "result on fresh, unshared objects")
ASSUMPTIONS = ["the reference for a term that was simplified in place is a fresh term with the same in-place calls; its "
               "value must be that of the original term", "generators are consumed, or stopped early, before an "
               "in-place operation on the same term"]

POOL = [
    conv.pt('1', ['H g1 g0'], 'g0', 'g1'),
    conv.pt('1', ['T h10 p10'], 'p10', 'h10'),
    conv.pt('1/4', ['H g22,g23 g20,g21'], 'g20,g21', 'g22,g23'),
    conv.pt('1/2', ['H h30,p31 g30,h31', 'L h31 h30', 'K g30 p30'], 'p30', 'p31'),
    conv.pt('1/4', ['H p40,p41 h40,h41', 'T h40,h41 p40,p41'], '', ''),
    conv.pt('-2', ['T h10 p10', 'T h61 p61'], 'p10,p61', 'h10,h61'),
    conv.pt('1/2', ['H g1,a70 g0,a71', 'L a71 a70'], 'g0', 'g1'),
    conv.pt('1/4', ['H g23,g22 g20,g21', 'L a90,a91 a80,a81', 'T a80,a81 a90,p80'], 'g20,g21,a91', 'g22,p80,g23'),
    conv.pt('3', ['H c80 c81', 'L c81 c82', 'T c82 p80'], 'p80', 'c80'),
    conv.pt('1/2', ['H a50,c50 v50,g50', 'K g50 v52'], 'v50,v52', 'a50,c50'),
]
MODEL = Model((1, 2, 1), seed='c21')


class Pool:
    """ The terms. shared: equal indices, index lists, tensors and operators are one object. """

    def __init__(self, shared=True, only=None):
        self.memo = {} if shared else None
        self.terms = [self.build(p) if only is None or n in only else None for n, p in enumerate(POOL)]
        self.objects = list(self.memo.values()) if shared else []

    def one(self, key, make):
        if self.memo is None:
            return make()
        if key not in self.memo:
            self.memo[key] = make()
        return self.memo[key]

    def indices(self, seq):
        return self.one(('I', seq), lambda: conv.MODES['so']([self.one(('i', i), lambda: Index(f"{i[0]}{i[1]}"))
                                                              for i in seq]))

    def tensor(self, t):
        return self.one(('T', t), lambda: conv.KIND_CLS[t[0]](self.indices(t[2]), self.indices(t[3]), name=t[1]))

    def build(self, p):
        return Term([self.tensor(t) for t in p[1]],
                    self.one(('O', p[2], p[3]), lambda: SecondQuantizedOperator(self.indices(p[2]), self.indices(p[3]))),
                    float(p[0]))


def ser(x):
    if isinstance(x, Term):
        return ('term', conv.plain(x))
    if isinstance(x, Tensor):
        return ('tensor', conv.plain_tensor(x))
    if isinstance(x, (SecondQuantizedOperator, IndicesPair)):
        return ('pair', tuple(map(conv.idx, x.upper_indices)), tuple(map(conv.idx, x.lower_indices)))
    if isinstance(x, Indices):
        return ('indices', type(x).__name__, tuple(map(conv.idx, x.indices)))
    if isinstance(x, Index):
        return conv.idx(x)
    if isinstance(x, MOSpaceCounter):
        return ('cost', tuple(sorted((k, v) for k, v in x.raw_counter.items() if v)))
    if isinstance(x, dict):
        return tuple(sorted(((ser(k), ser(v)) for k, v in x.items()), key=repr))
    if isinstance(x, (set, frozenset)):
        return tuple(sorted((ser(i) for i in x), key=repr))
    if isinstance(x, (list, tuple, GeneratorType)) or hasattr(x, '__next__'):
        return tuple(ser(i) for i in x)
    if isinstance(x, float):
        return round(x, 12)
    return x


def printed(f):
    def g(*a):
        with captured() as buf:
            f(*a)
        return buf.getvalue()
    return g


class Op:
    def __init__(self, name, on, f, kind='pure', valued=False):
        self.name, self.on, self.f, self.kind, self.valued = name, on, f, kind, valued

    def __call__(self, pool):
        return self.f(*[pool.terms[n] for n in self.on])


OPS, GENS = [], []


def define():
    def add(name, on, f, kind='pure', valued=False):
        OPS.append(Op(f"{name}{list(on)}", on, f, kind, valued))

    n = len(POOL)
    for k in range(n):
        p = POOL[k]
        op = bool(p[2])
        plain_term = k not in (3, 7, 8, 9)      # canonicalization does not rewrite tensors of the others
        add('simplify', (k,), lambda t: (t.simplify(), ser(t))[1], 'inplace', True)
        add('canonicalize', (k,), lambda t: t.canonicalize(), 'inplace', True)
        add('canonicalize(False,False,False)', (k,), lambda t: t.canonicalize(False, False, False), 'inplace', True)
        add('canonicalize_simple', (k,), lambda t: t.canonicalize_simple(), 'inplace', True)
        add('prints', (k,), lambda t: (str(t), t.latex(True, False), t.latex(False, True, True, True), t.hash_term(),
                                       t.ambit(), t.ambit('X', True), t.ambit('Y', False, False), hash(t) == hash(t)))
        add('facts', (k,), lambda t: (t.n_body if len(t.sq_op.cre_ops) == len(t.sq_op.ann_ops) else None, t.is_void(),
                                      t.is_possible_excitation(), t.perm_partition_open(), t.n_tensors))
        add('spin cases', (k,), lambda t: t.generate_spin_cases_naive())
        if op:
            add('expand', (k,), lambda t: t.expand_composite_indices(False), valued=plain_term)
            add('ddca', (k,), lambda t: t.make_ddca(1, 1, True, 3))
            add('excitation', (k,), lambda t: (t.make_excitation(True), t.make_excitation(False)))
        if len(p[2]) == 1:
            add('diagonal', (k,), lambda t: (list(t.make_one_body_diagonal(False)), list(t.make_one_body_diagonal(True))))
        add('costs', (k,), lambda t: (list(t.contraction_paths()), t.optimal_contraction_cost()))
        add('copies', (k,), lambda t: (Term.from_term(t), Term.from_term(t, True), Term.from_term(t, hc=True),
                                       t.void(), t == t, t.almost_equal(t), t <= t), valued=False)
        add('rebuild', (k,), lambda t: (Term(t.list_of_tensors, t.sq_op, t.coeff), Term(t.list_of_tensors, t.sq_op, 2.0),
                                        Term(list(t.list_of_tensors), t.sq_op, t.coeff)))
        add('tensors', (k,), lambda t: [(x.canonicalize(), x.latex(), x.ambit(), list(x.generate_spin_cases()), x.clone(),
                                         x.base_strong_generating_set(), x.diagonal_indices()) for x in t.list_of_tensors])
        if op:
            add('operator', (k,), lambda t: (t.sq_op.canonicalize(), t.sq_op.clone(True), list(t.sq_op.generate_spin_cases()),
                                             t.sq_op.base_strong_generating_set(), list(t.sq_op.ambit_permute_format(
                                                 *t.perm_partition_open())), t.sq_op.void()))
            add('index lists', (k,), lambda t: (t.sq_op.cre_ops.canonicalize(), t.sq_op.cre_ops + t.sq_op.ann_ops,
                                                sorted(t.sq_op.ann_ops), [i.to_beta() for i in t.sq_op.cre_ops],
                                                t.sq_op.cre_ops.count_permutations(t.sq_op.cre_ops.canonicalize()[0]),
                                                list(t.sq_op.ann_ops.generate_spin_cases(1)), t.sq_op.cre_ops.clone()))
    add('gradient', (4,), lambda t: t.gradient_t(), valued=True)
    BIG = 100
    for k in range(n):
        add('product of one', (k,), lambda t: poc.contract_terms([t], 2, BIG, 0, 2.0))
    for a, b in ((0, 1), (1, 0), (2, 1), (3, 1), (6, 1), (1, 3), (2, 5), (4, 1)):
        add('commutator', (a, b), lambda s, t: poc.single_commutator(s, t, 2, BIG, 0), valued=True)
        add('product', (a, b), lambda s, t: poc.contract_terms([s, t], 1, BIG, 0, 2.0, expand_hole=False), valued=True)
    add('linear commutator', (0, 2, 1), lambda a, b, t: poc.linear_commutator([a, b], [t], 0.5, 0, 4), valued=True)
    add('recursive commutator', (0, 1), lambda a, t: poc.recursive_single_commutator([a, t], 2, (0, 2)))
    add('operator product', (0, 1), lambda s, t: compute_operator_contractions([s.sq_op, t.sq_op], 3, 6, 0))
    add('operator commutator', (2, 1), lambda s, t: compute_operator_contractions([s.sq_op, t.sq_op], 2, 4, 0, True))
    add('combine', (0, 1, 2, 0), lambda *t: poc.combine_terms(list(t)), valued=True)
    add('combine cancelling', (0, 1, 0), lambda a, b, c: poc.combine_terms([a, b, Term.from_term(c, True)]), valued=True)
    add('combine all', range(n), lambda *t: poc.combine_terms(list(t)), valued=True)
    add('print ambit', (0, 1, 5, 2), printed(lambda *t: poc.print_terms_ambit(list(t))))
    add('print latex', (0, 5, 1, 2), printed(lambda *t: poc.print_terms_latex(list(t))))
    add('categorize', (5, 2, 1, 0), lambda *t: poc.categorize_contractions(list(t)))
    add('sort', range(n), lambda *t: sorted(t))
    add('compare', (0, 1, 5), lambda a, b, c: (a < b, a == b, a > b, b != c, b <= c, c >= a, len({a, b, c, a})))
    add('builders', (), lambda: (hamiltonian_operator(2), cluster_operator(2, 3, False), poc.cluster_operators([1, 2], 4)))

    def gen(name, f):
        GENS.append((name, f))
    for k in (0, 2, 3, 5):
        gen(f'spin cases[{k}]', lambda P, k=k: P.terms[k].generate_spin_cases_naive())
        gen(f'expand[{k}]', lambda P, k=k: P.terms[k].expand_composite_indices(False))
        gen(f'creation[{k}]', lambda P, k=k: iter(P.terms[k].sq_op.cre_ops))
        gen(f'upper[{k}]', lambda P, k=k: iter(P.terms[k].list_of_tensors[0].upper_indices))
    gen('paths[3]', lambda P: P.terms[3].contraction_paths())
    gen('diagonal[3]', lambda P: P.terms[3].make_one_body_diagonal(False))
    gen('permutations[5]', lambda P: P.terms[5].sq_op.ambit_permute_format(*P.terms[5].perm_partition_open()))
    gen('tensor spins[4]', lambda P: P.terms[4].list_of_tensors[0].generate_spin_cases())
    gen('index spins[2]', lambda P: P.terms[2].sq_op.cre_ops.generate_spin_cases())
    gen('contractions[0,1]', lambda P: iter(compute_operator_contractions([P.terms[0].sq_op, P.terms[1].sq_op], 3, 6, 0)))
    gen('contractions[2,1]', lambda P: iter(compute_operator_contractions([P.terms[2].sq_op, P.terms[1].sq_op], 2, 4, 0, True)))
    gen('gradient[4]', lambda P: P.terms[4].gradient_t())


define()
TRACES = [n for n, o in enumerate(OPS) if o.kind == 'inplace' or o.name.split('[')[0] in
          ('commutator', 'product', 'combine', 'combine all', 'print ambit', 'gradient', 'excitation', 'linear commutator')]


def cases(tier):
    out = [{'pairs': k} for k in range(len(OPS))]
    few = [n for n in TRACES if OPS[n].kind == 'inplace' and OPS[n].on[0] in (0, 1, 3, 8)] + \
          [n for n in TRACES if OPS[n].kind != 'inplace'][:6]
    if tier == 'thorough':
        few = TRACES
    out += [{'triple': [a, b]} for a in few for b in few]
    out += [{'gen': k} for k in range(len(GENS))]
    out += [{'long': k, 'backward': b} for k in range(len(POOL)) for b in (False, True)]
    return out


def tables():
    return (copy.deepcopy(mo_space.space_relation), dict(mo_space.space_priority), list(mo_space.mo_space),
            list(mo_space.so_space), dict(mo_space.space_priority_so), copy.deepcopy(mo_space.space_relation_so))


TABLES = tables()
_expected = {}


class Oracle:
    """ A copy of this process as it was before any operation ran; every answer comes from a fresh copy of that. """

    def __init__(self):
        (r1, w1), (r2, w2) = os.pipe(), os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            for fd in range(3, 256):
                if fd not in (r1, w2):
                    with contextlib.suppress(OSError):
                        os.close(fd)
            self.serve(os.fdopen(r1, 'rb'), w2)
        os.close(r1), os.close(w2)
        self.ask_, self.tell = os.fdopen(w1, 'wb'), os.fdopen(r2, 'rb')

    @staticmethod
    def serve(asked, w):
        while True:
            try:
                k, pre = pickle.load(asked)
            except EOFError:
                os._exit(0)
            if os.fork() == 0:
                data = pickle.dumps(fresh_result(k, pre))
                with os.fdopen(w, 'wb') as f:
                    f.write(struct.pack('q', len(data)) + data)
                os._exit(0)
            os.wait()

    def ask(self, k, pre):
        pickle.dump((k, pre), self.ask_)
        self.ask_.flush()
        n = struct.unpack('q', self.tell.read(8))[0]
        return pickle.loads(self.tell.read(n))


_oracle = {}


def oracle():
    if os.getpid() not in _oracle:
        _oracle.clear()
        _oracle[os.getpid()] = Oracle()
    return _oracle[os.getpid()]


def fresh_result(k, pre):
    o = OPS[k]
    P = Pool(False, set(o.on))
    for p in pre:
        try:
            OPS[p](P)
        except Exception:
            pass
    return result(o, P)


def expected(k, prefix):
    """ The result of operation k on fresh unshared terms on which only the in-place operations of the prefix ran. """
    o = OPS[k]
    pre = tuple(p for p in prefix if OPS[p].kind == 'inplace' and OPS[p].on[0] in o.on)
    key = (k, pre)
    if key not in _expected:
        _expected[key] = oracle().ask(k, pre) if len(pre) < 2 else fresh_result(k, pre)
    return _expected[key]


def result(o, P):
    try:
        return ser(o(P))
    except Exception as e:
        return ('raised', type(e).__name__)


def value(s):
    """ Operator value of all terms in a serialized result. """
    ts = []

    def walk(x):
        if isinstance(x, tuple):
            if len(x) == 2 and x[0] == 'term':
                ts.append(x[1])
            else:
                for y in x:
                    walk(y)
    walk(s)
    return MODEL.eval_terms([t for t in ts if t[0]])


_values = {}


def valued(s):
    if s not in _values:
        _values[s] = value(s)
    return _values[s]


def snapshot(P, skip=()):
    return tuple(None if n in skip else (conv.plain(t), ser(t.indices_set), ser(dict(t.diagonal_indices)) if
                 isinstance(t.diagonal_indices, dict) else ser(t.diagonal_indices)) for n, t in enumerate(P.terms)), \
        tuple(ser(x) for x in P.objects)


def play(res, seq):
    P = Pool(True)
    for n, k in enumerate(seq):
        o = OPS[k]
        before = snapshot(P, o.on if o.kind == 'inplace' else ())
        got = result(o, P)
        res.transitions += 1
        exp = expected(k, seq[:n])
        res.traces += 1
        hist = [OPS[j].name for j in seq[:n]]
        if got != exp:
            res.fail(f"{o.name} after {hist} gives {str(got)[:300]}, on fresh objects in a fresh process {str(exp)[:300]}")
        if snapshot(P, o.on if o.kind == 'inplace' else ()) != before:
            now = snapshot(P, o.on if o.kind == 'inplace' else ())
            d = [(a, b) for a, b in zip(before[0] + before[1], now[0] + now[1]) if a != b]
            res.fail(f"{o.name} after {hist} changed an object it shares: {str(d)[:500]}")
        if tables() != TABLES:
            res.fail(f"{o.name} after {hist} changed the space tables")
            return
        if o.kind == 'inplace':
            # the value of the term and of the result is that of the original term
            ref = MODEL.eval_terms([POOL[o.on[0]]])
            for what, v in (('the result of', valued(got)), ('the term after', MODEL.eval_terms([conv.plain(P.terms[o.on[0]])]))):
                if v != ref:
                    res.fail(f"{what} {o.name} after {hist}: {diff_keys(v, ref)}")
        elif o.valued and any(OPS[j].kind == 'inplace' for j in seq[:n]):
            fresh = expected(k, ())
            if fresh[:1] == ('raised',):     # outside the domain on the unsimplified terms
                continue
            ref, v = valued(fresh), valued(got)
            if v != ref:
                res.fail(f"{o.name} after {hist} has another value than on the original terms: {diff_keys(v, ref)}")
    res.states += 1


def derived(x, out=None):
    """ All terms in a result, lazily evaluated results included. """
    out = [] if out is None else out
    if isinstance(x, Term):
        out.append(x)
    elif isinstance(x, dict):
        for k, v in x.items():
            derived(k, out), derived(v, out)
    elif isinstance(x, (list, tuple, set, GeneratorType)) or hasattr(x, '__next__'):
        for y in x:
            derived(y, out)
    return out


def run_derived(res, k):
    """ In-place changes of every term that an operation returned leave the terms it came from alone, and the other
    way round. """
    o = OPS[k]
    for how in INPLACE:
        P = Pool(True)
        try:
            got = derived(o(P))
        except Exception:
            return
        own = {id(t) for t in P.terms}
        got = [t for t in got if id(t) not in own]
        for n, t in enumerate(got):
            before = snapshot(P)
            rest = [conv.plain(x) for x in got[:n] + got[n + 1:] if x is not t]
            try:
                how(t)
            except Exception:
                pass
            res.transitions += 1
            res.traces += 1
            if snapshot(P) != before:
                d = [(a, b) for a, b in zip(before[0] + before[1], snapshot(P)[0] + snapshot(P)[1]) if a != b]
                res.fail(f"changing result {n} of {o.name} in place changed the terms it came from: {str(d)[:400]}")
                return
            if [conv.plain(x) for x in got[:n] + got[n + 1:] if x is not t] != rest:
                res.fail(f"changing result {n} of {o.name} in place changed another result")
                return
        res.states += 1
        P = Pool(True)
        got = [t for t in derived(o(P)) if id(t) not in {id(t) for t in P.terms}]
        before = [conv.plain(t) for t in got]
        for t in P.terms:
            try:
                how(t)
            except Exception:
                pass
            res.transitions += 1
        res.traces += 1
        if [conv.plain(t) for t in got] != before:
            res.fail(f"changing the terms in place changed the results of {o.name}")
        res.states += 1


INPLACE = (lambda t: t.simplify(), lambda t: t.canonicalize(), lambda t: t.canonicalize_simple())


def run_gen(res, k):
    name, f = GENS[k]
    solo = ser(f(Pool(False)))
    # two lazy results, every interleaving of their first steps
    for name2, f2 in GENS:
        solo2 = ser(f2(Pool(False)))
        n, m = min(3, len(solo) + 1), min(3, len(solo2) + 1)
        for where in combinations(range(n + m), n):
            P = Pool(True)
            its = (f(P), f2(P))
            outs = ([], [])
            for s in range(n + m):
                w = 0 if s in where else 1
                try:
                    outs[w].append(ser(next(its[w])))
                except StopIteration:
                    pass
                res.transitions += 1
            for w in (0, 1):
                outs[w].extend(ser(x) for x in its[w])
            res.states += 1
            res.traces += 1
            if tuple(outs[0]) != solo or tuple(outs[1]) != solo2:
                res.fail(f"{name} and {name2} interleaved ({where} of {n + m}): {str(outs)[:300]}")
                break
    # every pure operation at every point of a lazy result
    for o in OPS:
        if o.kind != 'pure':
            continue
        for at in range(0, min(3, len(solo)) + 1):
            P = Pool(True)
            it, out = f(P), []
            for _ in range(at):
                out.append(ser(next(it)))
            got = result(o, P)
            out.extend(ser(x) for x in it)
            res.transitions += 1
            res.states += 1
            res.traces += 1
            if tuple(out) != solo:
                res.fail(f"{o.name} after {at} steps of {name}: {str(out)[:300]}")
            elif got != expected(OPS.index(o), ()):
                res.fail(f"{o.name} after {at} steps of {name}: {str(got)[:300]}")


def run_long(res, k, backward):
    """ Every query, an in-place change, every query, another in-place change, every query, on one term. """
    asks = [n for n, o in enumerate(OPS) if o.kind == 'pure' and k in o.on and len(o.on) <= 2]
    if backward:
        asks = asks[::-1]
    change = [n for n, o in enumerate(OPS) if o.kind == 'inplace' and k in o.on]
    for b in change:
        for c in change:
            play(res, asks + [b] + asks + [c] + asks)
        for a in asks:
            play(res, [a, a, b, a, a])


def run_case(case):
    res = Result()
    oracle()
    if 'long' in case:
        run_long(res, case['long'], case['backward'])
        return res
    if 'gen' in case:
        run_gen(res, case['gen'])
        return res
    if 'pairs' in case:
        for k in range(len(OPS)):
            play(res, (case['pairs'], k))
        run_derived(res, case['pairs'])
        res.outcomes.add(hash(expected(case['pairs'], ())))
        if case['pairs'] % 40 == 0:
            res.sample = {'operation': OPS[case['pairs']].name, 'result': str(expected(case['pairs'], ()))[:200]}
    else:
        for k in range(len(OPS)):
            if set(OPS[k].on) & (set(OPS[case['triple'][0]].on) | set(OPS[case['triple'][1]].on)):
                play(res, (*case['triple'], k))
    return res


if __name__ == '__main__':
    harness.main(globals())
