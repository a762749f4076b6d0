""" C22: combinatorial helpers and space tables are exact. """
from itertools import product, combinations

import _path  # noqa
from mc import harness
from mc.harness import Result
from dsrg_generator import mo_space
from dsrg_generator.helper.integer_partition import integer_partition, integer_separation
from dsrg_generator.helper.multiprocess_helper import calculate, calculate_star
from dsrg_generator.helper.file_utils import multi_gsub

PID = 'C22'
LEVEL = 'model_checking'
RULE = ("every integer up to the bound (partitions, separations, with every interleaving of the first steps of two "
        "partition generators and with the yielded lists overwritten by the caller); every space label, every set of "
        "elementary spaces that has a label in every iteration order; every small substitution. states = objects "
        "enumerated by the reference, transitions = values yielded, traces = comparisons")
ASSUMPTIONS = ["integers are positive; a set of spaces given to find_space_label has a label (the core+virtual set has "
               "none) and is of one spin; substitution keys and values contain no regular expression syntax"]

ELEM = {'c': 'c', 'a': 'a', 'v': 'v', 'p': 'av', 'h': 'ca', 'g': 'cav'}


def partitions(n, largest=None):
    largest = n if largest is None else largest
    if n == 0:
        yield ()
        return
    for k in range(min(n, largest), 0, -1):
        for rest in partitions(n - k, k):
            yield (k,) + rest


def cases(tier):
    top = 30 if tier == 'quick' else 48
    out = [['partition', n] for n in range(1, top + 1)]
    out += [['separation', n] for n in range(0, 5)] + [['separation-to', 300]]
    out += [['interleave', a, b] for a in range(1, 8) for b in range(1, 8)]
    out += [['tables'], ['labels'], ['gsub'], ['star']]
    return out


def run_case(case):
    res = Result()
    kind = case[0]
    if kind == 'partition':
        n = case[1]
        got = []
        for x in integer_partition(n):
            res.check(isinstance(x, list) and sum(x) == n and min(x) > 0, f"{x} is no partition of {n}")
            got.append(tuple(sorted(x, reverse=True)))
            x[:] = [99] * (n + 2)          # the caller owns what it was given
            res.transitions += 1
        ref = sorted(partitions(n))
        res.states += len(ref)
        res.traces += 1
        if sorted(got) != ref:
            res.fail(f"partitions of {n}: {len(got)} yielded ({len(set(got))} distinct), {len(ref)} expected; "
                     f"missing {sorted(set(ref) - set(got))[:3]}")
        res.sample = f"{len(ref)} partitions of {n}"
    elif kind.startswith('separation'):
        for n in [case[1]] if kind == 'separation' else range(5, case[1]):
            for z in (False, True):
                got = integer_separation(n, z) if z else integer_separation(n)
                lo = 0 if z else 1
                ref = [(i, n - i) for i in range(lo, n + 1 - lo)]
                res.states += len(ref)
                res.transitions += len(got)
                res.traces += 1
                res.check(sorted(map(tuple, got)) == ref, f"integer_separation({n}, {z}) = {got[:20]}")
    elif kind == 'interleave':
        solo = [[list(x) for x in integer_partition(n)] for n in case[1:]]
        n, m = (min(4, len(s)) for s in solo)
        for where in combinations(range(n + m), n):
            its = [integer_partition(k) for k in case[1:]]
            outs = ([], [])
            for s in range(n + m):
                w = 0 if s in where else 1
                outs[w].append(next(its[w]))
                res.transitions += 1
            res.states += 1
            res.traces += 1
            res.check([outs[0], outs[1]] == [solo[0][:n], solo[1][:m]],
                      f"interleaved generators {case[1:]} {where}: {outs}")
    elif kind == 'tables':
        M = mo_space
        ref = {k: set(v) for k, v in ELEM.items()}
        refb = {k.upper(): set(v.upper()) for k, v in ELEM.items()}
        for name, got, exp in (('space_relation_so', M.space_relation_so, ref),
                               ('space_relation_a', M.space_relation_a, ref),
                               ('space_relation_b', M.space_relation_b, refb),
                               ('space_relation', M.space_relation, {**ref, **refb})):
            res.states += len(exp)
            res.traces += 1
            res.check(got == exp, f"{name}: {got}")
        for name, labels, pri in (('so', M.so_space, M.space_priority_so), ('alpha', M.so_space, M.space_priority_a),
                                  ('beta', M.mo_space_b, M.space_priority_b), ('all', M.mo_space, M.space_priority)):
            res.states += len(labels)
            res.transitions += len(labels) ** 2
            res.traces += 1
            res.check(len(set(labels)) == len(labels) and set(pri) == set(labels), f"{name}: labels and priorities")
            for a, b in product(labels, labels):
                res.check((pri[a] < pri[b]) == (labels.index(a) < labels.index(b)), f"{name}: order of {a} and {b}")
                if name in ('all', 'beta') and a.isupper() and b.isupper():
                    res.check((pri[a] < pri[b]) == (M.space_priority_so[a.lower()] < M.space_priority_so[b.lower()]),
                              f"{name}: {a}, {b} not ordered like alpha")
        res.check(set(M.mo_space) == set(ref) | set(refb) and set(M.so_space) == set(ref), "labels")
    elif kind == 'labels':
        for label, elems in list(ELEM.items()) + [(k.upper(), v.upper()) for k, v in ELEM.items()]:
            res.states += 1
            # every insertion history of the set (iteration order may depend on it), also the table's own set
            forms = [set(w) for w in product(elems, repeat=len(elems)) if set(w) == set(elems)]
            forms += [frozenset(elems), set(mo_space.space_relation[label])]
            for f in forms:
                got = mo_space.find_space_label(f)
                res.transitions += 1
                res.traces += 1
                res.check(got == label, f"find_space_label({sorted(f)}) = {got!r}, expected {label!r}")
                res.check(f == set(elems), "find_space_label changed the set")
            # intersection of two composite labels, as simplification computes it
        for (a, b), up in product(product(ELEM, ELEM), (str, str.upper)):
            inter = set(up(ELEM[a])) & set(up(ELEM[b]))
            exp = [up(k) for k, v in ELEM.items() if set(up(v)) == inter]
            if not exp:
                continue
            got = mo_space.find_space_label(mo_space.space_relation[up(a)] & mo_space.space_relation[up(b)])
            res.transitions += 1
            res.traces += 1
            res.check(got == exp[0], f"label of {up(a)} and {up(b)}: {got!r} expected {exp[0]!r}")
        for bad in (set(), {'x'}, {'c', 'x'}, {'1'}):
            try:
                got = mo_space.find_space_label(bad)
            except ValueError:
                res.traces += 1
                continue
            res.fail(f"find_space_label({bad}) = {got!r}, expected a ValueError")
    elif kind == 'gsub':
        for text in map(''.join, product('AB x', repeat=4)):
            for keys in (('A',), ('A', 'B'), ('B', 'A'), ('AB', 'x')):
                for vals in product(('', 'B', 'zz', 'A\n{1};'), repeat=len(keys)):
                    exp = text
                    for k, v in zip(keys, vals):
                        exp = v.join(exp.split(k))
                    d = dict(zip(keys, vals))
                    got = multi_gsub(d, text)
                    res.transitions += 1
                    res.traces += 1
                    res.check(got == exp and list(d.items()) == list(zip(keys, vals)), f"multi_gsub({d}, {text!r}) = {got!r}")
            res.states += 1
    else:
        for n in range(5):
            args = tuple(range(n))
            res.states += 1
            res.transitions += 2
            res.traces += 2
            f = lambda *a: ('called', a)     # noqa
            res.check(calculate(f, args) == ('called', args), f"calculate with {n} arguments")
            res.check(calculate_star((f, args)) == ('called', args), f"calculate_star with {n} arguments")
    return res


if __name__ == '__main__':
    harness.main(globals())
