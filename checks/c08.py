""" C08: index permutations carry the right sign and multiplicity. """
import re
from itertools import permutations, product
from math import factorial

import _path  # noqa
from mc import harness, conv
from mc.harness import Result
from dsrg_generator.Index import Index
from dsrg_generator.Indices import Indices
import dsrg_generator.Indices as _indices_cls  # noqa: F401
import sys

PID = 'C08'
LEVEL = 'model_checking'
RULE = ("all orderings of label sets up to 6 (thorough 7) indices, all ordered partitions up to 5 (6) indices in every "
        "order of the indices and spin pattern; states = index sequences x partitions, transitions = calls on the real "
        "objects, traces = results compared with the permutation definition")
ASSUMPTIONS = ["blocks of a partition are given in the order in which they are to appear"]

SETS = ['g0 g1 g2 g3 g4 g5 g6', 'v2 v10 c0 c1 a3 h0 p7', 'g0 p0 v0 h0 c0 a0 a1', 'a10 a9 a2 c3 v3 p1 p0']
SPIN = ['g0 g1 G0 G1 g2 G2', 'v0 V0 a0 A0 c1 C1', 'A0 a0 a1 A1 h0 H0', 'g0 G1 G2 G3 v0 V0']


def parity(p):
    return (-1) ** sum(p[i] > p[j] for i in range(len(p)) for j in range(i + 1, len(p)))


def prio(i):
    """ Independent order of the labels: general > particle > virtual > hole > active > core as the system defines it,
    read from single comparisons. """
    return Index(i)


def ordered_partitions(items):
    """ All ordered set partitions; blocks keep the given order of the items. """
    if not items:
        yield []
        return
    n = len(items)
    for k in range(1, n + 1):
        for lab in product(range(k), repeat=n):
            if len(set(lab)) == k:
                yield [[x for x, b in zip(items, lab) if b == j] for j in range(k)]


def interleavings(blocks):
    blocks = [b for b in blocks if b]
    if not blocks:
        yield []
        return
    for k, b in enumerate(blocks):
        for rest in interleavings(blocks[:k] + [b[1:]] + blocks[k + 1:]):
            yield [b[0]] + rest


def cases(tier):
    deep = tier == 'thorough'
    out = []
    for s in SETS:
        for n in range(0, 8 if deep else 7):
            out.append({'kind': 'sort', 'labels': s.split()[:n], 'mode': 'so'})
            out.append({'kind': 'sort', 'labels': s.split()[:n], 'mode': 'sa'})
    for s in SPIN:
        for n in range(0, 7 if deep else 6):
            out.append({'kind': 'sort', 'labels': s.split()[:n], 'mode': 'si'})
    for s, mode in [(s, 'so') for s in SETS] + [(s, 'si') for s in SPIN] + [(SETS[1], 'sa')]:
        for n in range(0, 6 if deep else 5):
            for p in (permutations(s.split()[:n]) if n < 5 else list(permutations(s.split()[:n]))[::17]):
                out.append({'kind': 'part', 'labels': list(p), 'mode': mode})
        out.append({'kind': 'part', 'labels': s.split()[:5], 'mode': mode})
    for s, mode in ((SETS[0], 'so'), (SPIN[0], 'si'), (SPIN[2], 'si'), (SETS[2], 'sa')):
        w = s.split()
        for a in range(0, 4):
            for b in range(0, 4):
                out.append({'kind': 'op', 'cre': w[:a], 'ann': w[6 - b:6], 'mode': mode})
    for a in range(1, 4):
        out.append({'kind': 'pair', 'n': a})
    out.append({'kind': 'count', 'n': 5 if deep else 4})
    for n in range(0, 9 if deep else 8):
        out.append({'kind': 'inv', 'n': n})
    out.sort(key=lambda c: -len(c.get('labels', [])) * (c['kind'] == 'sort'))
    return out


def names(x):
    return [str(i) for i in x]


def run_case(case):
    res = Result()
    kind = case['kind']
    if kind == 'sort':
        base = case['labels']
        ranks = None
        for p in permutations(base):
            x = Indices.make_indices(list(p), case['mode'])
            y, sign = x.canonicalize()
            res.states += 1
            res.transitions += 1
            res.traces += 1
            got = names(y.indices)
            if names(x.indices) != list(p):
                res.fail(f"canonicalize changed its argument {p}")
            if type(y) is not type(x):
                res.fail(f"canonicalize changed the kind of indices of {p}")
            if case['mode'] == 'sa':
                if got != list(p) or sign != 1:
                    res.fail(f"spin-adapted indices {p} were reordered to {got} with sign {sign}")
                continue
            want = names(sorted(Index(i) for i in p))
            if ranks is None:
                ranks = {k: n for n, k in enumerate(want)}
            if got != want or sorted(got) != sorted(p):
                res.fail(f"canonical order of {p} is {got}, expected {want}")
            elif sign != parity([ranks[i] for i in p]):
                res.fail(f"sign of sorting {p} is {sign}")
        res.sample = {'labels': base, 'orders': res.states}
    elif kind == 'part':
        x = Indices.make_indices(case['labels'], case['mode'])
        pos = {k: n for n, k in enumerate(case['labels'])}
        spin = [k[0].isupper() for k in case['labels']]
        for part in ordered_partitions(case['labels']):
            res.states += 1
            ip = [[Index(i) for i in b] for b in part]
            if not part:
                ip = [[]]
            full = [list(q) for q in interleavings(part)]
            total = factorial(len(pos))
            for b in part:
                total //= factorial(len(b))
            if total != len(full):
                raise AssertionError('checker')
            n = x.n_multiset_permutation(ip)
            lat_n, lat = x.latex_permute_format(ip)
            ex = x.exist_permute_format(ip)
            out = list(x.ambit_permute_format(ip))
            res.transitions += 4
            res.traces += 4
            if case['mode'] == 'sa':
                want = {(1, ','.join(case['labels']))}
                ok = n == 1 and lat_n == 1 and lat == '' and not ex
            else:
                want = {(parity([pos[i] for i in q]), ','.join(q)) for q in full
                        if [i[0].isupper() for i in q] == spin}
                ok = n == total and lat_n == total and bool(ex) == (len(part) > 1)
                blocks = [sorted(re.sub(r'[_{}]', '', w) for w in b.split()) for b in
                          re.sub(r'^.*?\(|\)\s*$', '', lat).split('/')] if lat else None
                ok = ok and (blocks is None) == (total == 1)
                if blocks is not None and blocks != [sorted(b) for b in part]:
                    res.fail(f"permutation symbol {lat} for the partition {part}")
            if not ok:
                res.fail(f"{case['mode']} {case['labels']} partition {part}: {n} permutations, latex {lat_n} {lat!r}, "
                         f"exists {ex}; expected {total}")
            if len(out) != len(set(out)) or set(out) != want:
                res.fail(f"{case['mode']} {case['labels']} partition {part}: permutations {out}, expected "
                         f"{sorted(want)}")
            if [names(b) for b in ip if b] != [list(b) for b in part]:
                res.fail("the partition was modified")
        res.outcomes.add(len(case['labels']))
        res.sample = {'labels': case['labels'], 'partitions': res.states}
    elif kind == 'op':
        op = conv.real_op(conv.P_(','.join(case['cre'])), conv.P_(','.join(case['ann'])), case['mode'])
        pos = {k: n for n, k in enumerate(case['cre'])}
        pos2 = {k: n for n, k in enumerate(case['ann'])}
        for pc in ordered_partitions(case['cre']):
            for pa in ordered_partitions(case['ann']):
                ic = [[Index(i) for i in b] for b in pc] or [[]]
                ia = [[Index(i) for i in b] for b in pa] or [[]]
                f = lambda part, base, ps: ([(1, ','.join(base))] if case['mode'] == 'sa' else [
                    (parity([ps[i] for i in q]), ','.join(q)) for q in interleavings(part)
                    if [i[0].isupper() for i in q] == [i[0].isupper() for i in base]])
                a, b = f(pc, case['cre'], pos), f(pa, case['ann'], pos2)
                for first in (True, False):
                    got = list(op.permute_indices(ic, ia, first))
                    want = [(s * t, u, v) if first else (s * t, v, u) for s, u in a for t, v in b]
                    res.transitions += 1
                    res.traces += 1
                    if sorted(got) != sorted(want):
                        res.fail(f"{case} partitions {pc} {pa} creation first {first}: {got}, expected {want}")
                    if case['cre'] or case['ann']:
                        amb = list(op.ambit_permute_format(ic, ia, first))
                        if sorted(amb) != sorted((s, '["' + ','.join(x for x in (u, v) if x) + '"]') for s, u, v in want):
                            res.fail(f"{case} partitions {pc} {pa} ambit {amb}")
                n = op.n_multiset_permutation(ic, ia)
                m = 1
                if case['mode'] != 'sa':
                    m = len(list(interleavings(pc))) * len(list(interleavings(pa)))
                ln, ls, lo = op.latex_permute_format(ic, ia)
                ex = op.exist_permute_format(ic, ia)
                res.states += 1
                res.traces += 1
                if n != m or ln != m or bool(ex) != (m > 1) or bool(ls) != (m > 1):
                    res.fail(f"{case} partitions {pc} {pa}: {n} permutations (latex {ln} {ls!r}, exist {ex}), expected {m}")
    elif kind == 'pair':
        up = ['v0', 'c1', 'a2', 'g3'][:case['n']]
        low = ['h0', 'p1', 'a0', 'g1'][:case['n']]
        for u in permutations(up):
            for l in permutations(low):
                for t in (('H', 'H'), ('X', 'Y'), ('L', 'L')):
                    x = conv.real_tensor((t[0], t[1], conv.P_(','.join(u)), conv.P_(','.join(l))))
                    y, s = x.canonicalize()
                    su, sl = sorted(Index(i) for i in u), sorted(Index(i) for i in l)
                    want = parity([su.index(Index(i)) for i in u]) * parity([sl.index(Index(i)) for i in l])
                    res.states += 1
                    res.traces += 1
                    if names(y.upper_indices.indices) != names(su) or names(y.lower_indices.indices) != names(sl) \
                            or s != want or y.name != x.name or type(y) is not type(x) or y.priority != x.priority:
                        res.fail(f"canonicalize of {x} gives {y} sign {s}, expected sign {want}")
                o = conv.real_op(conv.P_(','.join(u)), conv.P_(','.join(l)))
                y, s = o.canonicalize()
                if names(y.cre_ops.indices) != names(su) or names(y.ann_ops.indices) != names(sl) or s != want:
                    res.fail(f"canonicalize of operator {o} gives {y} sign {s}, expected sign {want}")
    elif kind == 'count':
        w = ['g0', 'a1', 'v2', 'c3', 'h4'][:case['n']]
        for p in permutations(w):
            for q in permutations(w):
                n = Indices.make_indices(list(p), 'so').count_permutations(Indices.make_indices(list(q), 'so'))
                res.states += 1
                res.traces += 1
                if (-1) ** n != parity([p.index(i) for i in q]):
                    res.fail(f"count_permutations({p}, {q}) = {n}")
    elif kind == 'inv':
        f = getattr(sys.modules['dsrg_generator.Indices'], 'sort_and_count_inversions', None)
        if f is None:
            return res
        for w in permutations(range(case['n'])):
            got = f(list(w))
            res.states += 1
            res.traces += 1
            want = (sorted(w), sum(w[i] > w[j] for i in range(len(w)) for j in range(i + 1, len(w))))
            if list(got[0]) != want[0] or (got[1] - want[1]) % 2:
                res.fail(f"sort_and_count_inversions({list(w)}) = {got}, expected {want}")
    return res


if __name__ == '__main__':
    harness.main(globals())
