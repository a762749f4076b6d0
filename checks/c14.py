""" C14: generated source files form a consistent, correct program. """
import os
import re
import shutil
import tempfile
from itertools import combinations, permutations

import _path  # noqa
from mc import harness, conv, prog
from mc.harness import Result
from mc.sem import P
from dsrg_generator.phys_op_contraction import categorize_contractions
from dsrg_generator.write_forte_functions import save_terms_ambit_functions, save_direct_t3

PID = 'C14'
LEVEL = 'model_checking'
RULE = ("every non-empty set of terms up to the bound over a term alphabet (one and several terms per block and "
        "permutation, blocks of all ranks, lists with and without a scalar), every order of the larger ones, x add "
        "Hermitian conjugate x intermediate storage; files are written to a scratch directory, parsed, checked for "
        "declarations, and executed. states = programs, transitions = executed statements, traces = result tensors")
ASSUMPTIONS = ["spin-orbital, particle-conserving canonical terms with tensors named H, T, L; amplitudes stored [holes, particles]",
               "the interpreter's reading of ambit statements and of the C++ subset that is generated"]

TERMS = [('1', ['H v0 c0', 'T c0 v0'], '', ''), ('1/4', ['H v0,v1 c0,c1', 'T c0,c1 v0,v1'], '', ''),
         ('2', ['H c0 v0'], 'v0', 'c0'), ('-1', ['H v1 v0', 'T c0 v1'], 'v0', 'c0'),
         ('1', ['H v1 c1', 'T c0,c1 v0,v1'], 'v0', 'c0'), ('1', ['H a0 v0', 'L a1 a0', 'T c0 a1'], 'v0', 'c0'),
         ('-1', ['H v0 c0'], 'c0', 'v0'), ('1', ['H c0 c1'], 'c1', 'c0'),
         ('1/4', ['H c0,c1 v0,v1'], 'v0,v1', 'c0,c1'), ('-1/2', ['H v2,c0 v0,v1', 'T c1 v2'], 'v0,v1', 'c0,c1'),
         ('1', ['H v2,c0 v0,c2', 'T c1,c2 v1,v2'], 'v0,v1', 'c0,c1'), ('3/2', ['H c0 v0', 'T c1 v1'], 'v0,v1', 'c0,c1'),
         ('-1', ['H v2 v0', 'T c0,c1 v1,v2'], 'v0,v1', 'c0,c1'),
         ('1', ['H c0 v0', 'T a0 v1'], 'v0,v1', 'c0,a0'), ('1', ['H p0,g0 g1,h0', 'T h0 p0'], 'g1', 'g0'),
         ('1/3', ['T c0,c1 v0,v1', 'T c2 v2'], 'v0,v1,v2', 'c0,c1,c2')]
T3 = [('1/36', ['T c0,c1,c2 v0,v1,v2'], 'v0,v1,v2', 'c0,c1,c2'),
      ('1/4', ['H v3,c0 v0,v1', 'T c1,c2 v2,v3'], 'v0,v1,v2', 'c0,c1,c2'),
      ('-1/4', ['H c0,c1 v0,c3', 'T c2,c3 v1,v2'], 'v0,v1,v2', 'c0,c1,c2'),
      ('1/12', ['H v3 v0', 'T c0,c1,c2 v1,v2,v3'], 'v0,v1,v2', 'c0,c1,c2'),
      ('1/2', ['H c0,c1 v0,v1', 'T c2 v2'], 'v0,v1,v2', 'c0,c1,c2'),
      ('-1', ['H v3,c0 v0,c3', 'T c1,c3 v1,v3', 'T c2 v2'], 'v0,v1,v2', 'c0,c1,c2')]
M_ = {}


def model(size):
    if size not in M_:
        M_[size] = prog.Inputs(size, seed='c14')
    return M_[size]


def cases(tier):
    deep = tier == 'thorough'
    n = len(TERMS)
    out = []
    sets = [list(c) for k in range(1, 5 if deep else 4) for c in combinations(range(n), k)]
    for k in range(0, len(sets), 12):
        out.append({'sets': sets[k:k + 12]})
    big = [[0, 2, 3, 8, 9, 10, 11], [1, 4, 5, 6, 13], list(range(n))]
    for b in big:
        out.append({'sets': [b, b[::-1], b[1::2] + b[::2], b[3:] + b[:3]]})
    sel = [list(c) for c in permutations(range(8, 13), 3)]
    out.append({'sets': sel})
    # repeated terms
    out.append({'sets': [[k, k] for k in range(n)]})
    out.append({'sets': [[a, b, a] for a in range(7, 13) for b in range(8, 13)]})
    for k in range(1, len(T3) + 1):
        for c in combinations(range(len(T3)), k):
            out.append({'t3': list(c)})
    return out


def real(term):
    return conv.real(conv.pt(*term)).canonicalize()


def parse_dir(d):
    """ All files -> (definitions {name: (class, params, body)}, declarations {name: params}) """
    defs, decls = {}, {}
    for f in sorted(os.listdir(d)):
        text = open(os.path.join(d, f)).read()
        if f.endswith('.h'):
            for s in prog.statements(text):
                m = re.fullmatch(r'void (\w+)\(([^)]*)\)', s)
                if not m:
                    raise prog.ProgramError(f"{f}: declaration {s!r} not understood")
                if m[1] in decls:
                    raise prog.ProgramError(f"{f}: {m[1]} is declared twice")
                decls[m[1]] = prog.parameters(m[2])
        elif f.endswith('.cc'):
            fs, rest = prog.functions_of(text)
            if len(fs) != 1 or fs[0][1] != f[:-3]:
                raise prog.ProgramError(f"{f} defines {[x[1] for x in fs]}")
            rest = ' '.join(re.sub(r'//[^\n]*', '', rest).split())
            if not re.fullmatch(r'#include "[\w/.-]+" using namespace psi; namespace forte \{ \}', rest):
                raise prog.ProgramError(f"{f}: text around the function: {rest!r}")
            cls, name, params, body = fs[0]
            defs[name] = (cls, params, body)
        else:
            raise prog.ProgramError(f"unexpected file {f}")
    return defs, decls


def program(res, sel, dagger, destroy, scratch):
    d = tempfile.mkdtemp(dir=scratch)
    M = model((2, 1, 2))
    terms = [real(TERMS[k]) for k in sel]
    if 15 in sel:
        M = model((3, 0, 3))
    plains = [conv.plain(t) for t in terms]
    what = f"terms {[conv.show(p) for p in plains]} add_t_dagger={dagger} destroy_h={destroy}"
    save_terms_ambit_functions(terms, 'comm', 'Some_Class', d, dagger, destroy)
    if [conv.plain(t) for t in terms] != plains:
        res.fail(f"{what}: the terms were changed")
    try:
        defs, decls = parse_dir(d)
        if set(defs) != set(decls) or any(defs[k][1] != decls[k] for k in defs):
            raise prog.ProgramError(f"declared {decls} defined { {k: v[1] for k, v in defs.items()} }")
        if any(v[0] != 'Some_Class' for v in defs.values()):
            raise prog.ProgramError("function defined outside of its class")
        if 'comm' not in defs:
            raise prog.ProgramError("no main function")
        ranks = sorted({len(p[2]) for p in plains})
        m = prog.results_machine(M, ranks, 'so')
        factor = m.scalars['factor'] = 123456789
        # the results hold garbage before the call
        for n in ranks:
            if n:
                m.arrays[f'C{n}'].data = {tuple(range(2 * n)): 77, (0,) * (2 * n): 5}
            else:
                m.scalars['C0'] = 4711
        m.functions = {k: ([(t, p) for t, _, p in v[1]], v[2]) for k, v in defs.items()}
        used = {f'{t[1]}{len(t[2])}' for p in plains for t in p[1]}
        params = [p for _, _, p in defs['comm'][1]]
        if set(params) != used | {f'C{n}' for n in ranks} | {'factor'} or len(set(params)) != len(params):
            raise prog.ProgramError(f"parameters {params} of the main function")
        for t, ref, p in defs['comm'][1]:
            if (p == 'factor') == bool(ref) or (t == 'double') != (p in ('factor', 'C0')):
                raise prog.ProgramError(f"parameter {t}{ref} {p}")
        for name, (_, ps, _) in defs.items():
            for t, ref, p in ps:
                if re.fullmatch(r'C\d', p) and not ref:
                    raise prog.ProgramError(f"{name}: result {p} is passed by value")
        m.declared = set(params)
        calls = re.findall(r'\b(comm_\w+)\s*\(', defs['comm'][2])
        if sorted(calls) != sorted(k for k in defs if k != 'comm'):
            raise prog.ProgramError(f"calls {calls}, functions {sorted(defs)}")
        m.run(defs['comm'][2])
        changed = [k for k in m.arrays if k[0] in 'HTL']
        if changed and (not destroy or any(k[0] != 'H' for k in changed)):
            raise prog.ProgramError(f"inputs {changed} are overwritten")
    except prog.ProgramError as e:
        res.fail(f"{what}: {e}")
        return
    finally:
        shutil.rmtree(d)
    got, want = prog.results(m, ranks), prog.expected(M, plains, 'so')
    res.states += 1
    res.transitions += m.n_statements
    for n in ranks:
        w = {k: v * factor % P for k, v in want[n].items() if v}
        if dagger:
            x = dict(w)
            for k, v in w.items():
                kk = k[n:] + k[:n]
                x[kk] = (x.get(kk, 0) + v) % P
            w = {k: v for k, v in x.items() if v}
        res.traces += 1
        if got[n] != w:
            bad = [(k, got[n].get(k, 0), w.get(k, 0)) for k in sorted(set(got[n]) | set(w)) if got[n].get(k, 0) != w.get(k, 0)]
            res.fail(f"{what}: {len(bad)} wrong elements of C{n}, e.g. {bad[:3]}")
    res.outcomes.add((len(defs), m.n_statements, dagger, destroy))
    if res.sample is None:
        res.sample = {'terms': [conv.show(p) for p in plains], 'functions': sorted(defs), 'main': defs['comm'][2]}


def direct_t3(res, sel, scratch):
    """ The direct T3 update: T3 <- C3 * R(D) + T3 - T3 * E(D), C3 the sum of the terms. """
    d = tempfile.mkdtemp(dir=scratch)
    M = model((3, 0, 3))
    terms = [real(T3[k]) for k in sel]
    plains = [conv.plain(t) for t in terms]
    what = f"direct T3 with {[conv.show(p) for p in plains]}"
    cat = categorize_contractions(terms)
    (block, perm_terms), = cat.items()
    save_direct_t3(perm_terms, 'comm', 'Some_Class', d)
    try:
        files = os.listdir(d)
        if files != ['comm_direct_t3.cc']:
            raise prog.ProgramError(f"files {files}")
        text = open(os.path.join(d, files[0])).read()
        (cls, name, params, body), = prog.functions_of(text)[0]
        if cls != 'Some_Class' or name != 'comm_direct_t3':
            raise prog.ProgramError(f"function {cls}::{name}")
        used = {f'{t[1]}{len(t[2])}' for p in plains for t in p[1]}
        if {p for _, _, p in params} != used or len(params) != len(used):
            raise prog.ProgramError(f"parameters {params}")
        m = prog.Machine(M, 'so')
        m.declared = {p for _, _, p in params} | {'T3'}      # T3: parameter or class member
        D = {}

        def delta(k, expr):
            e = re.sub(r'Fd\[\s*i\[(\d)\]\s*\]', lambda q: str(M.prand(('Fd', k[int(q[1])]))), expr)
            if not re.fullmatch(r'[\d\s+\-*()]+', e):
                raise prog.ProgramError(f"expression {expr!r}")
            return eval(e) % P

        def iterate(arr, code):
            code = ' '.join(code.split())
            q = re.fullmatch(r'(?:double delta = (?P<d>[^;]+); )?value \*= (?P<f>[\w:]+)\((?P<a>.*)\);', code)
            if not q:
                raise prog.ProgramError(f"loop {code!r}")
            for k in list(arr.data):
                a = q['a']
                if q['d']:
                    a = re.sub(r'\bdelta\b', f"({delta(k, q['d'])})", a)
                a = re.sub(r'\bs_\b', str(M.prand('s')), a)
                arr.data[k] = arr.data[k] * M.prand((q['f'], delta(k, a))) % P

        # statements and loops in order
        pos = 0
        loop = re.compile(r'(\w+)\.iterate\(\[&\]\([^)]*\)\s*\{(.*?)\}\s*\);', re.S)
        lab = lambda s: re.sub(r'"([a-z]{6})"', lambda q: '"c0,c1,c2,v0,v1,v2"' if q[1] == 'ijkabc' else q[0], s)
        skip = lambda s: '\n'.join(x for x in s.split('\n') if '.norm(' not in x)
        c3_seen = None
        for q in loop.finditer(body):
            m.run(lab(skip(body[pos:q.start()])))
            if c3_seen is None:
                c3_seen = {k: v for k, v in m.array('C3').data.items() if v}
            iterate(m.array(q[1]), q[2])
            pos = q.end()
        m.run(lab(skip(body[pos:])))
    except prog.ProgramError as e:
        res.fail(f"{what}: {e}")
        return
    finally:
        shutil.rmtree(d)
    want = {k: v for k, v in prog.expected(M, plains, 'so')[3].items() if v}
    res.states += 1
    res.transitions += m.n_statements
    res.traces += 2
    if c3_seen != want:
        res.fail(f"{what}: C3 differs from the sum of the terms")
    new = {}
    t3 = dict(M._input('T3', tuple('cccvvv'), 'so'))
    for k in set(want) | set(t3):
        dd = (sum(M.prand(('Fd', o)) for o in k[:3]) - sum(M.prand(('Fd', o)) for o in k[3:])) % P
        r = M.prand(('renormalized_denominator', dd))
        e = M.prand(('std::exp', -M.prand('s') * dd * dd % P))
        v = (want.get(k, 0) * r + t3.get(k, 0) * (1 - e)) % P
        if v:
            new[k] = v
    got = {k: v for k, v in m.arrays['T3'].data.items() if v}
    if got != new:
        res.fail(f"{what}: wrong T3 update")
    if res.sample is None:
        res.sample = {'terms': [conv.show(p) for p in plains], 'program': body[:600]}


def run_case(case):
    res = Result()
    scratch = tempfile.mkdtemp(prefix='c14_')
    try:
        if 't3' in case:
            direct_t3(res, case['t3'], scratch)
        else:
            for sel in case['sets']:
                for dagger in (True, False):
                    for destroy in ((True, False) if dagger else (False, True)[:1 + (len(sel) != 3)]):
                        program(res, sel, dagger, destroy, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return res


if __name__ == '__main__':
    harness.main(globals())
