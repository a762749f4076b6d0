""" C17: contraction-cost analysis enumerates all paths and finds the optimum. """
from collections import Counter
from fractions import Fraction
from itertools import product

import _path  # noqa
from mc import harness, conv, terms
from mc.harness import Result
from dsrg_generator.mo_space import MOSpaceCounter

PID = 'C17'
LEVEL = 'model_checking'
RULE = ("every index connection x space word of the listed tensor shapes, the listed and the reversed tensor order for two and three tensors; "
        "every sequence of pairwise contractions of each term is explored in the model (states = partial contraction "
        "states, transitions = pairwise contractions), traces = paths reported by the real code that were matched")
ASSUMPTIONS = ["terms with at least one tensor and without diagonal indices",
               "the cost order is: number of indices, then virtual-like (v, p, g), core-like (c, h), active ones"]

QUICK = [('H1', (1, 1), 'gphvca', 'so'), ('H2', (2, 2), 'gva', 'so'), ('H1 T1', (0, 0), 'gphvca', 'so'),
         ('H1 T1', (1, 1), 'gphvca', 'so'), ('H2 T1', (1, 1), 'ghpv', 'so'), ('H2 T2', (0, 0), 'hpva', 'so'),
         ('H2 T2', (1, 1), 'hpc', 'so'), ('H2 T2', (2, 2), 'cv', 'so'), ('H2 T1 T1', (0, 0), 'hpva', 'so'),
         ('H2 T1 L1', (1, 1), 'cav', 'so'), ('H2 T2 L1', (1, 1), 'ca', 'so'), ('H2 T2 T1', (1, 1), 'cv', 'so'),
         ('T1 T1 L2', (0, 0), 'ahp', 'so'), ('H2 L1 L1', (0, 0), 'gha', 'so'), ('H2 T1 T1 L1', (0, 0), 'hp', 'so'),
         ('H2 T1 T1 T1', (1, 1), 'cv', 'so'), ('T1 T1 L1 L1', (0, 0), 'ha', 'so'), ('H2 T2 L2', (0, 0), 'ap', 'so'),
         ('H2 T1 T1 L1 L1', (0, 0), 'h', 'so'), ('H2 T1 T1 T1 T1', (0, 0), 'cv', 'so'),
         ('H2', (2, 2), 'aA', 'si'), ('H2 T1', (1, 1), 'hpHP', 'si'), ('H2 T2', (0, 0), 'cvCV', 'si'),
         ('H2 T1 T1', (0, 0), 'vhVH', 'si'), ('H2 T2', (1, 1), 'hpa', 'sa'), ('H2 T2 L1', (1, 1), 'ca', 'sa')]
DEEP = [('H2 T2', (0, 0), 'gphvca', 'so'), ('H2 T2', (1, 1), 'hpva', 'so'), ('H2 T2', (2, 2), 'cva', 'so'),
        ('H2 T1 T1', (1, 1), 'cva', 'so'), ('H2 T2 T1', (1, 1), 'cva', 'so'), ('H2 T2 T2', (0, 0), 'cv', 'so'),
        ('H2 T2 T2', (1, 1), 'cv', 'so'), ('H2 T2 L1 L1', (0, 0), 'ha', 'so'), ('H2 T1 T1 T1 T1', (0, 0), 'hva', 'so'),
        ('H2 T1 T1 L1 L1 L1', (0, 0), 'h', 'so'), ('T2 T2 L2 L1 L1', (0, 0), 'a', 'so')]


def cases(tier):
    out = []
    for text, op, al, mode in QUICK + (DEEP if tier == 'thorough' else []):
        ms = list(terms.canonical_pairings(text, op, mode != 'si'))
        n = len(al) ** len(ms[0])
        per = max(1, (600 if len(text.split()) < 5 else 40) // n)
        for k in range(0, len(ms), per):
            for a in (al if n > 600 else ('',)):
                out.append({'text': text, 'op': op, 'al': al, 'mode': mode, 'ms': ms[k:k + per], 'first': a})
    out.sort(key=lambda c: -len(c['text'].split()) * len(c['ms'][0]))
    return out


def key(cnt):
    v = c = a = 0
    for s, n in cnt.items():
        s = s.lower()
        if s in 'vpg':
            v += n
        elif s in 'ch':
            c += n
        else:
            a += n
    return (v + c + a, v, c, a)


def count(indices):
    return Counter(s.lower() for s, _ in indices)


def raw(c):
    return Counter({s.lower(): n for s, n in c.raw_counter.items() if n})


def sequences(ts, res):
    """ Every sequence of pairwise contractions -> {tree: (number of sequences, compute steps, storage steps)} """
    full = {}

    def rec(items, comp, stor):
        res.states += 1
        if len(items) == 1:
            tree = items[0][1]
            n, c0, s0 = full.get(tree, (0, comp, stor))
            full[tree] = (n + 1, c0, s0)
            return
        for i in range(len(items)):
            for j in range(i + 1, len(items)):
                (a, ta), (b, tb) = items[i], items[j]
                res.transitions += 1
                rec([items[k] for k in range(len(items)) if k not in (i, j)] + [(a ^ b, frozenset((ta, tb)))],
                    comp + [count(a | b)], stor + [count(a ^ b)])
    rec([(frozenset(t[2] + t[3]), t) for t in ts], [], [])
    return full


def tree_of(path):
    if isinstance(path, (tuple, list)):
        return frozenset(tree_of(p) for p in path)
    return conv.plain_tensor(path)


def one(t, res):
    ts = t[1]
    x = conv.real(t)
    before = conv.plain(x)
    got = list(x.contraction_paths())
    opt = x.optimal_contraction_cost()
    if conv.plain(x) != before:
        res.fail(f"{conv.show(t)} was changed by the cost analysis")
    for c in [g[0] for g in got] + [g[1] for g in got]:
        if (c.overall_scaling, *c.parsed_counter) != key(raw(c)):
            res.fail(f"cost {c} of {conv.show(t)}: {c.overall_scaling} {c.parsed_counter}")
    if len(ts) == 1:
        want = count(ts[0][2] + ts[0][3])
        res.traces += 1
        if [(raw(a), raw(b), p) for a, b, p in got] != [(want, want, None)]:
            res.fail(f"paths of {conv.show(t)}: {got}")
        if [(raw(a), p) for a, p in opt] != [(want, None)] * 2:
            res.fail(f"optimal cost of {conv.show(t)}: {opt}")
        res.states += 1
        return
    full = sequences(ts, res)
    seen = Counter()
    for comp, stor, path in got:
        tree = tree_of(path)
        seen[tree] += 1
        if tree not in full:
            res.fail(f"{conv.show(t)}: reported path {path} is not a contraction order of the tensors")
            continue
        res.traces += 1
        for name, cost, steps in (('computational', comp, full[tree][1]), ('storage', stor, full[tree][2])):
            best = max(map(key, steps))
            if key(raw(cost)) != best or not (raw(cost) in steps or best[0] == 0):
                res.fail(f"{conv.show(t)}: {name} cost {cost} of path {path}, its steps cost {steps}")
    if seen != Counter({k: v[0] for k, v in full.items()}):
        res.fail(f"{conv.show(t)}: {sum(seen.values())} paths ({len(seen)} different), expected "
                 f"{sum(v[0] for v in full.values())} ({len(full)} different)")
    for n, name in ((1, 'computational'), (2, 'storage')):
        cost, path = opt[n - 1]
        best = min(max(map(key, v[n])) for v in full.values())
        tree = tree_of(path)
        if key(raw(cost)) != best or tree not in full or max(map(key, full[tree][n])) != best:
            res.fail(f"{conv.show(t)}: optimal {name} cost {cost} by {path}; the minimum is {best} (n, v, c, a)")
        res.outcomes.add((name, best))


def run_case(case):
    res = Result()
    ts = terms.shape(case['text'])
    for m in case['ms']:
        m = [(tuple(a), tuple(b)) for a, b in m]
        for w in product(case['al'], repeat=len(m)):
            if case['first'] and w[0] != case['first']:
                continue
            t = terms.build(ts, tuple(case['op']), m, w, sum(map(ord, w)) % 2, Fraction(1), case['mode'])
            if t is None or sum(s.isupper() for s, _ in t[2]) != sum(s.isupper() for s, _ in t[3]):
                continue
            if len(set(t[1])) < len(t[1]):
                continue
            orders = [t[1]]
            if len(t[1]) in (2, 3):
                orders.append(t[1][::-1])
            for o in orders:
                one((t[0], o) + t[2:], res)
                res.bump('terms')
            if res.sample is None and len(t[1]) > 2:
                res.sample = {'term': conv.show(t), 'optimum': [[str(c), str(p)] for c, p in conv.real(t).optimal_contraction_cost()]}
    return res


if __name__ == '__main__':
    harness.main(globals())
