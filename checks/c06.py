""" C06: combining like terms preserves the sum and merges completely. """
from fractions import Fraction
from itertools import combinations, combinations_with_replacement, permutations, product

import _path  # noqa
from mc import harness, conv
from mc.harness import Result
from mc.sem import to_frac
from dsrg_generator.phys_op_contraction import combine_terms

PID = 'C06'
LEVEL = 'model_checking'
RULE = ("all lists up to the bound over an alphabet of (term form, coefficient); multisets x all their orders; states = "
        "lists, transitions = combine_terms calls, traces = results compared with the dictionary model (exact "
        "fractions), order, and snapshot of the inputs")
ASSUMPTIONS = ["coefficients are fractions with moderate denominators (double rounding below 1e-9 is not a difference)"]

# forms that differ in exactly one respect from another one
SO = [conv.pt(1, ['H g0 g1'], 'g1', 'g0'), conv.pt(1, ['H g1 g0'], 'g0', 'g1'),
      conv.pt(1, ['H g0 h0'], 'h0', 'g0'), conv.pt(1, ['H g0 p0'], 'p0', 'g0'),
      conv.pt(1, ['T c0 v0'], 'v0', 'c0'), conv.pt(1, ['T:S c0 v0'], 'v0', 'c0'),
      conv.pt(1, ['T c0 v0'], 'c0', 'v0'), conv.pt(1, ['T c1 v0'], 'v0', 'c1'), conv.pt(1, ['T c11 v0'], 'v0', 'c11'),
      conv.pt(1, ['H v0 c0', 'T c0 v0']), conv.pt(1, ['H v0,v1 c0,c1', 'T c0,c1 v0,v1']),
      conv.pt(1, ['H v0,v1 c0,c1', 'T c0 v0', 'T c1 v1']), conv.pt(1, ['H v0,v1 c0,c1', 'T c0 v1', 'T c1 v0']),
      conv.pt(1, ['H a0 a1', 'L a1 a0']), conv.pt(1, ['H a0,a1 a2,a3', 'L a2,a3 a0,a1']),
      conv.pt(1, ['H a0,a1 a2,a3', 'L a2 a0', 'L a3 a1']), conv.pt(1, []),
      conv.pt(1, ['H g0,g1 g2,g3'], 'g2,g3', 'g0,g1'), conv.pt(1, ['H g0,g1 g2,g3'], 'g0,g1', 'g2,g3'),
      # the same indices on exchanged sides of one tensor
      conv.pt(1, ['T v0 c0'], 'v0', 'c0'), conv.pt(1, ['H v0 c0', 'T v0 c0']), conv.pt(1, ['H h0 g0'], 'h0', 'g0'),
      conv.pt(1, ['H g2,g3 g0,g1'], 'g2,g3', 'g0,g1'), conv.pt(1, ['H v0,c1 c0,v1', 'T c0,c1 v0,v1'])]
SI = [conv.pt(1, ['H g0 g1'], 'g1', 'g0', 'si'), conv.pt(1, ['H G0 G1'], 'G1', 'G0', 'si'),
      conv.pt(1, ['H v0 c0', 'T c0 v0'], mode='si'), conv.pt(1, ['H V0 C0', 'T C0 V0'], mode='si'),
      conv.pt(1, ['T v0 c0'], 'v0', 'c0', 'si'), conv.pt(1, ['T c0 v0'], 'v0', 'c0', 'si'),
      conv.pt(1, ['H v0,V0 c0,C0', 'T c0,C0 v0,V0'], mode='si'), conv.pt(1, ['H v0,v1 c0,c1', 'T c0,c1 v0,v1'], mode='si')]
SA = [conv.pt(1, ['H v0,v1 c0,c1', 'T c0,c1 v0,v1'], mode='sa'), conv.pt(1, ['H v0,v1 c0,c1', 'T c1,c0 v0,v1'], mode='sa'),
      conv.pt(1, ['H v0 c0', 'T c0 v0'], mode='sa'), conv.pt(1, ['H g0,g1 g2,g3'], 'g2,g3', 'g0,g1', 'sa'),
      conv.pt(1, ['H g0,g1 g3,g2'], 'g2,g3', 'g0,g1', 'sa'), conv.pt(1, ['T v0 c0'], 'v0', 'c0', 'sa'),
      conv.pt(1, ['T c0 v0'], 'v0', 'c0', 'sa')]
ALL = {'so': SO, 'si': SI, 'sa': SA}
CO = ['1', '-1', '1/2', '-1/2', '1/3', '0', '1/4', '-1/36', '-2']
# exact in binary: sums of these have no rounding error, so nothing but a true zero may vanish
WIDE = ['1048576', '-1048576', '1/67108864', '-1/67108864', '-3/67108864']


def cases(tier):
    deep = tier == 'thorough'
    out = []
    for m, forms in ALL.items():
        n = len(forms)
        # pairs of forms with all coefficient lists, in all orders
        for a, b in combinations(range(n), 2):
            out.append({'mode': m, 'forms': [a, b], 'len': 4 if deep else 3, 'co': CO if deep else CO[:6]})
        tri = list(combinations(range(n), 3))
        for t in tri if deep else tri[::max(1, len(tri) // 120)]:
            out.append({'mode': m, 'forms': list(t), 'len': 4 if deep else 3, 'co': CO[:4] if deep else ['1', '-1', '1/3']})
        out.append({'mode': m, 'forms': list(range(n)), 'all': True})
        for a in range(n):
            out.append({'mode': m, 'forms': [a], 'len': 5 if deep else 4, 'co': CO})
            out.append({'mode': m, 'forms': [a], 'len': 4 if deep else 3, 'co': WIDE})
    return out


def model(items):
    d = {}
    for f, c in items:
        d[f] = d.get(f, Fraction(0)) + Fraction(c)
    return {f: c for f, c in d.items() if c}


def one(res, forms, items, ref, share):
    objs = {}
    lst = []
    for f, c in items:
        # with share, equal entries are the same object
        if share and (f, c) in objs:
            lst.append(objs[(f, c)])
            continue
        t = conv.real((Fraction(c),) + forms[f][1:])
        objs[(f, c)] = t
        lst.append(t)
    snap = [(id(t), conv.plain(t), t.coeff, len(t.indices_set)) for t in lst]
    out = combine_terms(lst)
    res.transitions += 1
    if [(id(t), conv.plain(t), t.coeff, len(t.indices_set)) for t in lst] != snap:
        res.fail(f"combine_terms changed its input {[(conv.show(forms[f]), c) for f, c in items]}")
    got = [conv.plain(t) for t in out]
    want = model(items)
    key = {forms[f][1:]: c for f, c in want.items()}
    if len(got) != len(key) or {g[1:]: g[0] for g in got} != key:
        res.fail(f"combine_terms of {[(conv.show(forms[f]), c) for f, c in items]} gives {[conv.show(g) for g in got]}")
    for x, y in zip(out, out[1:]):
        if not x < y:
            res.fail(f"not sorted: {x} before {y}")
    # combining again, and after the results are changed, the inputs stay
    for t in out:
        t.coeff = 99.0
    if [t.coeff for t in lst] != [s[2] for s in snap]:
        res.fail("the result shares its coefficient with the input")
    res.traces += 1
    forms_out = tuple(g[1:] for g in got)
    res.outcomes.add(hash(forms_out) & 0xffff)
    if ref is None:
        return got
    if got != ref:
        res.fail(f"the result depends on the order of the input {[(conv.show(forms[f]), c) for f, c in items]}: "
                 f"{[conv.show(g) for g in got]} against {[conv.show(g) for g in ref]}")
    return ref


def run_case(case):
    res = Result()
    forms = ALL[case['mode']]
    if case.get('all'):
        base = [(f, '1/2') for f in case['forms']]
        ref = None
        for k in range(len(base)):
            for rev in (False, True):
                items = base[k:] + base[:k]
                items = items[::-1] if rev else items
                res.states += 1
                ref = one(res, forms, items, ref, False)
                one(res, forms, items + [(f, '-1/2') for f, _ in base[:k]], None, False)
        return res
    letters = [(f, c) for f in case['forms'] for c in case['co']]
    for n in range(0, case['len'] + 1):
        for ms in combinations_with_replacement(letters, n):
            if n and len({f for f, _ in ms}) < min(n, len(case['forms'])) and len(case['forms']) > 1:
                continue
            ref = None
            for p in sorted(set(permutations(ms))):
                res.states += 1
                ref = one(res, forms, p, ref, len(p) % 2 == 0)
    if res.sample is None:
        res.sample = {'forms': [conv.show(forms[f]) for f in case['forms']], 'lists': res.states}
    return res


if __name__ == '__main__':
    harness.main(globals())
