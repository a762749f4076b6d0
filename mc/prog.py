"""
Interpreter of the generated tensor-contraction programs (ambit statements and the C++ files around them) over GF(P).

Storage conventions of the target library, written down here independently of the generator:
  Hn, Ln, ...: first n indices upper, last n lower;  Tn (amplitudes): first n indices holes, last n particles;
  Cn (results): first the annihilation, then the creation indices; the operator is 1/(n!)^2 sum C a^cre_ann.
"""
import re
from fractions import Fraction

from mc.sem import Model, P, frac_mod, parity_sort

AMPLITUDES = ('T', 'S')


class ProgramError(Exception):
    """ The program is ill formed. """


class Inputs(Model):
    """ A Model whose contraction routine also sees program arrays: kind 'A', name = array name. """

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.store = {}

    def block(self, kind, name, su, sl, mode):
        if kind != 'A':
            return super().block(kind, name, su, sl, mode)
        if name in self.store:
            ranges = [frozenset(self.range_of(s, mode)) for s in su]
            return [(k, v) for k, v in self.store[name].data.items() if all(o in r for o, r in zip(k, ranges))]
        key = ('A', name, su, mode)
        b = self._blocks.get(key)
        if b is None:
            b = self._blocks[key] = self._input(name, su, mode)
        return b

    def _input(self, name, su, mode):
        m = re.fullmatch(r'([A-Za-z]+)(?:(\d+)|_(\d+)_(\d+))', name)
        if not m:
            raise ProgramError(f"unknown tensor {name}")
        base = m[1]
        n = int(m[2] if m[2] else m[3])
        n2 = int(m[2] if m[2] else m[4])
        if len(su) != n + n2:
            raise ProgramError(f"{name} with {len(su)} indices")
        kind = {'H': 'H', 'T': 'T', 'S': 'T', 'L': 'L', 'K': 'K', 'C': 'E'}.get(base, 'X')
        if kind == 'E':
            raise ProgramError(f"{name} used as an input")
        b = super().block(kind, base, su[:n], su[n:], mode)
        if base in AMPLITUDES:
            b = [(k, v) for k, v in b if all(self.space_of[o] in 'ca' for o in k[:n])
                 and all(self.space_of[o] in 'av' for o in k[n:])]
        return b


class Array:
    def __init__(self, spaces=None):
        self.data = {}
        self.spaces = spaces          # string of space letters, None: any


def labels(text):
    """ 'c0,v1' -> (('c',0),('v',1));  'ijkabc' -> general labels by letter (templates) """
    out = []
    for w in text.split(','):
        m = re.fullmatch(r'\s*([A-Za-z])(\d+)\s*', w)
        if not m:
            raise ProgramError(f"index {w!r} in {text!r}")
        out.append((m[1], int(m[2])))
    return tuple(out)


NUM = r'-?\d+(?:\.\d*)?'
REF = re.compile(r'\s*(\w+)\s*\[\s*"([^"]*)"\s*\]\s*$')


def coefficient(text):
    text = text.strip()
    m = re.fullmatch(rf'\(\s*({NUM})\s*/\s*({NUM})\s*\)', text)
    if m:
        return Fraction(m[1]) / Fraction(m[2])
    m = re.fullmatch(NUM, text)
    if m:
        return Fraction(text)
    return None


def statements(text):
    """ Statements of a body without braces. """
    text = re.sub(r'//[^\n]*', '', text)
    parts = text.split(';')
    if parts[-1].strip():
        raise ProgramError(f"unterminated statement {parts[-1]!r}")
    return [' '.join(p.split()) for p in parts[:-1] if p.strip()]


class Machine:
    """ Executes statement lists.  vars: name -> Array (tensors), float scalars as field elements. """

    def __init__(self, model, mode='so'):
        self.M = model
        self.mode = mode
        self.scalars = {}
        self.arrays = {}
        self.declared = None        # names visible in the current function (None: everything)
        self.functions = {}
        self.n_statements = 0

    # -- environment
    def visible(self, name):
        if self.declared is not None and name not in self.declared:
            raise ProgramError(f"{name} is not declared")

    def array(self, name):
        self.visible(name)
        if name not in self.arrays:
            if re.fullmatch(r'[HTSL]\d', name):      # an input that is going to be overwritten
                n = int(name[1])
                self.arrays[name] = Array()
                self.arrays[name].data = dict(self.M._input(name, ('g',) * (2 * n), self.mode))
                self.M.store.pop(name, None)
            else:
                raise ProgramError(f"{name} is used before it is built")
        return self.arrays[name]

    def run(self, text):
        for s in statements(text):
            self.n_statements += 1
            self.statement(s)

    def statement(self, s):
        m = re.fullmatch(r'BlockedTensor (\w+)', s)
        if m:
            if self.declared is not None:
                if m[1] in self.declared:
                    raise ProgramError(f"{m[1]} is declared twice")
                self.declared.add(m[1])
            self.arrays.pop(m[1], None)
            return
        m = re.fullmatch(r'(BlockedTensor )?(\w+) = ambit::BlockedTensor::build\( ?ambit::CoreTensor, "[^"]*", '
                         r'\{ ?"(\w+)" ?\} ?\)', s)
        if m:
            if m[1]:
                if self.declared is not None:
                    self.declared.add(m[2])
            else:
                self.visible(m[2])
            self.arrays[m[2]] = Array(m[3])
            return
        m = re.fullmatch(r'(\w+)\.zero\(\)', s)
        if m:
            self.array(m[1]).data.clear()
            return
        m = re.fullmatch(r'(\w+)\.scale\((\w+)\)', s)
        if m:
            a, f = self.array(m[1]), self.scalar(m[2])
            a.data = {k: v * f % P for k, v in a.data.items()}
            return
        m = re.fullmatch(r'(\w+) \*= (.+)', s)
        if m:
            self.scalar(m[1])
            self.scalars[m[1]] = self.scalars[m[1]] * self.scalar(m[2]) % P
            return
        m = re.fullmatch(r'(\w+)\(([^"=]*)\)', s)
        if m:
            self.call(m[1], [a.strip() for a in m[2].split(',')])
            return
        m = re.fullmatch(r'(\w+)( ?\[ ?"[^"]*" ?\])? ?(\+=|-=|=) ?(.*)', s)
        if m:
            self.assign(m[1], m[2], m[3], m[4])
            return
        raise ProgramError(f"statement not understood: {s!r}")

    def scalar(self, text):
        c = coefficient(text)
        if c is not None:
            return frac_mod(c)
        self.visible(text)
        if text not in self.scalars:
            raise ProgramError(f"{text} is not a scalar")
        return self.scalars[text]

    def assign(self, name, idx, op, rhs):
        keep = ()
        if idx:
            keep = labels(re.search(r'"([^"]*)"', idx)[1])
            target = self.array(name)
            if len(set(keep)) != len(keep):
                raise ProgramError(f"repeated index on the left-hand side: {name}{idx}")
            if target.spaces is not None:
                if len(target.spaces) != len(keep):
                    raise ProgramError(f"{name} has {len(target.spaces)} indices, used with {idx}")
                for (sp, _), b in zip(keep, target.spaces):
                    if not set(self.M.range_of(sp, self.mode)) <= set(self.M.range_of(b, self.mode)):
                        raise ProgramError(f"{name}{idx} is outside of its block {target.spaces}")
        else:
            self.scalar(name)
        summands = split_sum(rhs)
        if len(summands) > 1:
            for k, r in enumerate(summands):
                self.assign(name, idx, op if k == 0 else ('-=' if op == '-=' else '+='), r)
            return
        c, tensors = Fraction(1), []
        for f in split_product(rhs):
            k = coefficient(f)
            if k is not None:
                c *= k
                continue
            m = REF.match(f)
            if not m:
                raise ProgramError(f"factor {f!r} not understood")
            self.visible(m[1])
            if m[1] in self.arrays:
                self.M.store[m[1]] = self.arrays[m[1]]
            else:
                self.M.store.pop(m[1], None)
                if m[1] == 'temp' or re.fullmatch(r'C\d+', m[1]):
                    raise ProgramError(f"{m[1]} is used before it is built")
            tensors.append(('A', m[1], labels(m[2]), ()))
        if not tensors and idx:
            raise ProgramError(f"no tensor on the right-hand side of {name}{idx}")
        where = {}
        for t in tensors:
            for i in t[2]:
                where[i] = where.get(i, 0) + 1
        for i in keep:
            if i not in where:
                raise ProgramError(f"index {i} of {name}{idx} does not occur on the right-hand side")
        order, table = self.M.contract(tensors, self.mode, list(keep))
        pos = [order.index(i) for i in keep]
        c = frac_mod(c)
        if op == '-=':
            c = P - c
        new = {}
        for k, v in table.items():
            kk = tuple(k[n] for n in pos)
            new[kk] = (new.get(kk, 0) + v * c) % P
        if not idx:
            v = new.get((), 0)
            self.scalars[name] = v if op == '=' else (self.scalars[name] + v) % P
            return
        data = target.data
        if op == '=':
            ranges = [set(self.M.range_of(s, self.mode)) for s, _ in keep]
            for k in [k for k in data if all(o in r for o, r in zip(k, ranges))]:
                del data[k]
        for k, v in new.items():
            data[k] = (data.get(k, 0) + v) % P

    # -- functions: name -> (list of (type, parameter), body)
    def call(self, name, args):
        if name not in self.functions:
            raise ProgramError(f"function {name} is not defined")
        params, body = self.functions[name]
        if [p for _, p in params] != args:     # the generator names arguments and parameters alike
            raise ProgramError(f"{name}({args}) is called but defined with {params}")
        for t, p in params:
            self.visible(p)
            is_scalar = p in self.scalars
            if (t == 'double') != is_scalar:
                raise ProgramError(f"{name}: argument {p} has type {t}")
        outer, temps = self.declared, dict(self.arrays)
        self.declared = {p for _, p in params}
        local = {k: v for k, v in self.arrays.items() if k in self.declared}
        self.arrays = local
        self.run(body)
        self.arrays = temps
        self.declared = outer


def split_sum(text):
    """ Top-level sums of tensor references (A["..."] + B["..."]). """
    return [t.strip() for t in re.split(r'(?<=\])\s*\+\s*(?=\w+\s*\[)', text)]


FUNC = re.compile(r'void\s+(?:(\w+)::)?(\w+)\s*\(([^)]*)\)\s*\{')


def parameters(text):
    out = []
    for w in text.split(','):
        m = re.fullmatch(r'\s*(double|BlockedTensor)\s*(&?)\s*(\w+)\s*', w)
        if not m:
            raise ProgramError(f"parameter {w!r} in {text!r}")
        out.append((m[1], m[2], m[3]))
    return out


def functions_of(text):
    """ Function definitions of a C++ file: [(class, name, parameters, body)], and the text around them. """
    out, rest, pos = [], '', 0
    while True:
        m = FUNC.search(text, pos)
        if not m:
            break
        rest += text[pos:m.start()]
        depth, k, instr = 1, m.end(), False
        while depth and k < len(text):
            ch = text[k]
            if ch == '"':
                instr = not instr
            elif not instr and ch == '{':
                depth += 1
            elif not instr and ch == '}':
                depth -= 1
            k += 1
        if depth:
            raise ProgramError(f"unbalanced braces in {m[2]}")
        out.append((m[1], m[2], parameters(m[3]), text[m.end():k - 1]))
        pos = k
    return out, rest + text[pos:]


def split_product(text):
    out, depth, cur = [], 0, ''
    instr = False
    for ch in text:
        if ch == '"':
            instr = not instr
        if ch == '(' and not instr:
            depth += 1
        if ch == ')' and not instr:
            depth -= 1
        if ch == '*' and depth == 0 and not instr:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    out.append(cur.strip())
    if any(not f for f in out):
        raise ProgramError(f"missing factor in {text!r}")
    return out


def rank(cre, ann):
    return len(cre) if len(cre) == len(ann) else (len(ann), len(cre))


def rank_name(name, n):
    return f'{name}{n}' if isinstance(n, int) else f'{name}_{n[0]}_{n[1]}'


def expected(M, plain_terms, mode):
    """ {rank: {(ann orbitals + cre orbitals): coefficient}} in the storage convention of the results; rank 0: scalar.
    Antisymmetric indices: every order of the orbitals (within equal spins for spin-integrated terms). """
    from itertools import permutations
    from math import factorial
    out = {}
    if mode == 'sa':
        for t in plain_terms:
            n = len(t[2])
            d = M.eval_term(t, as_array=True)
            o = out.setdefault(n, {})
            f = factorial(n) ** 2
            for (cre, ann), v in d.items():
                o[ann + cre] = (o.get(ann + cre, 0) + v * f) % P
        return {n: {k: v for k, v in d.items() if v} for n, d in out.items()}
    ops = {}
    for t in plain_terms:
        out.setdefault(rank(t[2], t[3]), {})
        M.eval_term(t, ops)
    for (cre, ann), v in ops.items():
        if not v:
            continue
        o = out[rank(cre, ann)]
        for pc in permutations(range(len(cre))):
            c = tuple(cre[k] for k in pc)
            if mode == 'si' and any(c[k] in M.beta and c[k + 1] not in M.beta for k in range(len(c) - 1)):
                continue
            s1 = parity_sort(pc)[1]
            for pa in permutations(range(len(ann))):
                a = tuple(ann[k] for k in pa)
                if mode == 'si' and any(a[k] in M.beta and a[k + 1] not in M.beta for k in range(len(a) - 1)):
                    continue
                o[a + c] = s1 * parity_sort(pa)[1] * v % P
    return out


def results(machine, ranks):
    out = {}
    for n in ranks:
        if n == 0:
            v = machine.scalars['C0']
            out[0] = {(): v} if v else {}
        else:
            out[n] = {k: v for k, v in machine.arrays[rank_name('C', n)].data.items() if v}
    return out


def results_machine(M, ranks, mode):
    m = Machine(M, mode)
    for n in ranks:
        if n == 0:
            m.scalars['C0'] = 0
        else:
            m.arrays[rank_name('C', n)] = Array()
    return m
