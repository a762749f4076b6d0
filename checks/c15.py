""" C15: LaTeX output denotes the term it was printed from. """
import re
from collections import Counter
from fractions import Fraction
from itertools import combinations, permutations, product

import _path  # noqa
import c13
from mc import harness, conv, terms
from mc.harness import Result, captured
from mc.sem import Model, clean, diff_keys, parity_sort
from dsrg_generator.phys_op_contraction import print_terms_latex

PID = 'C15'
LEVEL = 'model_checking'
RULE = ("every index connection x space word of the listed tensor shapes x every combination of the printing options; "
        "each string is parsed by an independent reader and evaluated with the permutation operators expanded; every "
        "list of terms up to the bound over term alphabets through print_terms_latex. states = strings, transitions = "
        "expanded permutations, traces = values compared")
ASSUMPTIONS = ["P(A/B/...) is the signed sum over the distinct distributions of the indices over the blocks",
               "no diagonal indices"]

KIND = {v: k for k, v in conv.KIND_NAME.items()}
KIND.update({'S': 'T'})
IDX = re.compile(r'([A-Za-z])_\{(\d+)\}')


class Bad(Exception):
    pass


def indices(text):
    out, pos = [], 0
    text = text.strip()
    while pos < len(text):
        m = IDX.match(text, pos)
        if not m:
            raise Bad(f"indices {text!r}")
        out.append((m[1], int(m[2])))
        pos = m.end()
        while pos < len(text) and text[pos] == ' ':
            pos += 1
    return tuple(out)


OBJ = re.compile(r'\s*([A-Za-z]+)\^\{((?:[^{}]|\{\d+\})*)\}_\{((?:[^{}]|\{\d+\})*)\}')
PERM = re.compile(r'\s*\{\\cal P\}\s*\(([^)]*)\)')


def parse(text, mode):
    """ -> (plain term, list of permutation operators (lists of blocks)) """
    text = text.strip()
    m = re.match(r'-?\d+(?:/\d+)?', text)
    if not m:
        raise Bad(f"no coefficient in {text!r}")
    coeff, text = Fraction(m[0]), text[m.end():]
    text = re.sub(r'^\s*&', '', text)
    perms = []
    while True:
        m = PERM.match(text)
        if not m:
            break
        perms.append([indices(b) for b in m[1].split('/')])
        text = text[m.end():]
    ts, op = [], ((), ())
    seen_op = False
    while text.strip():
        m = OBJ.match(text)
        if not m or seen_op:
            raise Bad(f"cannot read {text!r}")
        text = text[m.end():]
        if m[1] == 'a':
            op, seen_op = (indices(m[2]), indices(m[3])), True
        else:
            if m[1] not in KIND:
                raise Bad(f"tensor {m[1]}")
            ts.append((KIND[m[1]], m[1], indices(m[2]), indices(m[3])))
    return (coeff, tuple(ts), op[0], op[1], mode), perms


def arrangements(op, blocks):
    """ (sign, permuted op) for the distinct interleavings of the blocks. """
    if sorted(i for b in blocks for i in b) != sorted(op):
        raise Bad(f"permutation {blocks} does not cover {op}")
    which = [k for k, b in enumerate(blocks) for _ in b]
    for w in sorted(set(permutations(which))):
        its = [iter(b) for b in blocks]
        seq = tuple(next(its[k]) for k in w)
        yield parity_sort([op.index(i) for i in seq])[1], seq


def value(M, t, perms=()):
    if t[4] == 'sa':
        if perms:
            raise Bad("permutations of spin-adapted indices")
        return clean(M.eval_term(t, as_array=True)), 1
    c, ts, cre, ann, mode = t
    pc, pa = [(1, cre)], [(1, ann)]
    for p in perms:
        flat = {i for b in p for i in b}
        if flat <= set(cre):
            if len(pc) > 1:
                raise Bad("two permutations of the creation operators")
            pc = list(arrangements(cre, p))
        elif flat <= set(ann):
            if len(pa) > 1:
                raise Bad("two permutations of the annihilation operators")
            pa = list(arrangements(ann, p))
        else:
            raise Bad(f"permutation {p} of indices that are not open")
    out = {}
    for s1, a in pc:
        for s2, b in pa:
            M.eval_term((c * s1 * s2, ts, a, b, mode), out)
    return clean(out), len(pc) * len(pa)


MODELS = {}


def model(size, mode):
    if (size, mode) not in MODELS:
        MODELS[(size, mode)] = Model(size, spin=(mode == 'si'), seed='c15')
    return MODELS[(size, mode)]


def cases(tier):
    out = []
    for mode in c13.SINGLE:
        fams = c13.SINGLE[mode] + (c13.DEEP[mode] if tier == 'thorough' else [])
        if mode == 'so':
            fams = fams + [('H1 K1', (1, 1), 'gha', (2, 2, 2)), ('H1 E1', (1, 1), 'gpa', (2, 2, 2)),
                           ('X2 X1', (1, 1), 'gv', (2, 2, 2))]
        for text, op, al, size in fams:
            ms = list(terms.canonical_pairings(text, op, True))
            n = len(al) ** len(ms[0])
            per = max(1, 60 // n)
            for k in range(0, len(ms), per):
                for a in (al if n > 250 else ('',)):
                    out.append({'text': text, 'op': op, 'al': al, 'size': size, 'mode': mode, 'ms': ms[k:k + per],
                                'first': a})
        n = len(c13.ALPHABET[mode])
        sets = [list(c) for k in range(1, 5 if tier == 'thorough' else 4) for c in combinations(range(n), k)]
        sets += [list(range(n)), list(range(n))[::-1]]
        # repeated terms
        sets += [[a, b, a] for a in range(n) for b in range(n)] + [[a, a] for a in range(n)]
        for k in range(0, len(sets), 40):
            out.append({'lists': sets[k:k + 40], 'mode': mode})
    out.append({'coeff': 1})
    out.sort(key=lambda c: -len(c.get('ms', [()])[0]))
    return out


OPTS = list(product((True, False), repeat=4))


def strip(text, dollar, delimiter, backslash):
    t = text
    if dollar:
        if not (t.startswith('$') and t.endswith('$') and t.count('$') == 2):
            raise Bad(f"math mode {t!r}")
        t = t[1:-1]
    elif '$' in t:
        raise Bad(f"unexpected $ {t!r}")
    if backslash:
        if not t.rstrip().endswith('\\\\'):
            raise Bad(f"no line break {t!r}")
        t = t.rstrip()[:-2]
    if '\\\\' in t:
        raise Bad(f"unexpected line break {t!r}")
    if t.count('&') != (1 if delimiter else 0):
        raise Bad(f"delimiters {t!r}")
    return t


def one(res, M, x, p):
    v0 = value(M, p)[0]
    texts = {}
    for dollar, perm, delim, back in OPTS:
        text = x.latex(dollar, perm, delim, back)
        try:
            t, perms = parse(strip(text, dollar, delim, back), p[4])
            key = (t, repr(perms))
            if key not in texts:
                texts[key] = value(M, t, perms)
                res.transitions += texts[key][1]
                res.traces += 1
            v = texts[key][0]
            if not perm and perms:
                raise Bad("permutation operator printed although not asked for")
        except Bad as e:
            res.fail(f"latex(dollar={dollar}, permute_format={perm}, delimiter={delim}, backslash={back}) of "
                     f"{conv.show(p)}: {e}: {text!r}")
            return
        res.states += 1
        if v != v0:
            res.fail(f"{text!r} (permute_format={perm}) is not {conv.show(p)}: {diff_keys(v, v0)}")
    try:
        t, perms = parse(repr(x), p[4])
        if value(M, t, perms)[0] != v0:
            res.fail(f"{repr(x)!r} is not {conv.show(p)}")
    except Bad as e:
        res.fail(f"repr of {conv.show(p)}: {e}")
    if res.sample is None:
        res.sample = {'term': conv.show(p), 'latex': x.latex()}


def lists(res, mode, sel):
    al = c13.alphabet(mode)
    M = model((2, 1, 2) if mode != 'si' else (2, 0, 2), mode)
    real = [conv.real(al[k]).canonicalize() for k in sel]
    plains = [conv.plain(t) for t in real]
    with captured() as buf:
        print_terms_latex(real)
    text = buf.getvalue()
    envs = re.findall(r'\\begin\{align\}(.*?)\\end\{align\}', text, re.S)
    if re.sub(r'\\begin\{align\}(.*?)\\end\{align\}', '', text, flags=re.S).strip():
        res.fail(f"text outside of the environments: {text!r}")
    got = []
    try:
        for e in envs:
            for row in e.split('\\\\'):
                if row.count('&') != 1:
                    raise Bad(f"a row with {row.count('&')} delimiters: {row!r}")
                t, perms = parse(row, mode)
                got.append(value(M, t, perms)[0])
                res.transitions += 1
    except Bad as e:
        res.fail(f"print_terms_latex of {[conv.show(p) for p in plains]}: {e}")
        return
    fz = lambda d: frozenset(d.items())
    want = [value(M, p)[0] for p in plains]
    res.states += 1
    res.traces += len(want)
    if Counter(map(fz, got)) != Counter(map(fz, want)):
        res.fail(f"print_terms_latex of {[conv.show(p) for p in plains]} prints {len(got)} rows that are not these terms:\n{text}")
    res.outcomes.add((len(envs), len(got)))


def run_case(case):
    res = Result()
    if 'lists' in case:
        for sel in case['lists']:
            lists(res, case['mode'], sel)
        return res
    if 'coeff' in case:
        M = model((2, 2, 2), 'so')
        base = conv.pt('1', ['H v0,c0 c1,c2', 'T c1 v1'], 'c2,v1', 'c0,v0')
        for n in range(-12, 13):
            for d in list(range(1, 40)) + [64, 72, 96, 120, 144, 288, 576, 720, 1728, 5184, 14400]:
                p = (Fraction(n, d),) + base[1:]
                one(res, M, conv.real(p), p)
        return res
    ts = terms.shape(case['text'])
    mode = case['mode']
    M = model(tuple(case['size']), mode)
    n = 0
    for m in case['ms']:
        m = [(tuple(a), tuple(b)) for a, b in m]
        for w in product(case['al'], repeat=len(m)):
            if case['first'] and w[0] != case['first']:
                continue
            t = terms.build(ts, tuple(case['op']), m, w, sum(map(ord, w)) % 3, Fraction(3, 8), mode)
            if t is None or sum(s.isupper() for s, _ in t[2]) != sum(s.isupper() for s, _ in t[3]):
                continue
            x = conv.real(t)
            one(res, M, x, t)
            n += 1
            if n % 4 == 0:
                c = x.canonicalize()
                if not c.is_void():
                    one(res, M, c, conv.plain(c))
    return res


if __name__ == '__main__':
    harness.main(globals())
