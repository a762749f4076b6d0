""" C23: scoped directory changes always restore the caller's directory. """
import os
import shutil
import sys
import tempfile
from itertools import product

import _path  # noqa
from mc import harness
from mc.harness import Result
from dsrg_generator.helper.file_utils import ChangeDir

PID = 'C23'
LEVEL = 'model_checking'
RULE = ("every sequence, up to the stated depth, of scope entries (fresh, existing, nested, missing parent, name taken by "
        "a file, name too long, no permission to create or to enter, wrong argument), normal and exceptional exits (every kind of exception) and actions inside a scope "
        "(changing directory, removing the scope's directory, leaving a file), in a scratch directory, against a model "
        "of the working directory, the directories on disk and the open scopes. states = sequences (prefixes), "
        "transitions = operations executed, traces = sequences replayed on the real code")
ASSUMPTIONS = ["a scope is entered where it was constructed (with-statement use)",
               "only the directory of the innermost scope is removed while a scope is open"]

ENTER = ('enter a', 'enter b', 'enter a/b', 'enter f', 'enter long', 'enter locked', 'enter ro/x', 'enter 7')
INSIDE = ('up', 'rm', 'touch')
LEAVE = ('exit', 'raise', 'raise-other')
NAMES = {'long': 'x' * 300, '7': 7}
NOBODY = 65534
OPS = ENTER + INSIDE + LEAVE


class Model:
    """ cwd: path below the scratch root, or None when removed; dirs: existing directories; stack: open scopes """

    def __init__(self):
        self.cwd = ''
        self.dirs = {'', 'ro', 'locked'}
        self.files = {'f'}
        self.stack = []

    def enabled(self, op):
        if op in LEAVE:
            return bool(self.stack)
        if op in INSIDE:
            if not self.stack or self.cwd is None:
                return False
            if op == 'up':
                return self.cwd != ''
            if op == 'rm':
                me = self.stack[-1][0]
                return self.cwd == me and not any(d.startswith(me + '/') for d in self.dirs) and me != self.stack[-1][1]
        return True

    def step(self, op):
        """ 'ok' or 'error' """
        if op.startswith('enter'):
            name = op.split()[1]
            if self.cwd is None or name in NAMES:
                return 'error'
            path = f'{self.cwd}/{name}'.lstrip('/')
            if path in self.files or path in ('ro/x', 'locked') or path.rpartition('/')[0] not in self.dirs:
                return 'error'
            self.dirs.add(path)
            self.stack.append((path, self.cwd))
            self.cwd = path
            return 'ok'
        if op == 'up':
            self.cwd = self.cwd.rpartition('/')[0]
        elif op == 'rm':
            self.dirs.discard(self.cwd)
            self.files = {f for f in self.files if f.rpartition('/')[0] != self.cwd}
            self.cwd = None
        elif op == 'touch':
            self.files.add(f'{self.cwd}/touched'.lstrip('/'))
        else:
            self.cwd = self.stack.pop()[1]
        return 'ok'


class Boom(Exception):
    pass


EXC = (OSError, FileNotFoundError, FileExistsError, PermissionError, NotADirectoryError, ValueError, TypeError, KeyError,
       IndexError, StopIteration, GeneratorExit, SystemExit, MemoryError, AssertionError, NotImplementedError,
       RuntimeError, ImportError, EOFError, Warning)


def real_step(op, root, stack, exc=(Boom, KeyboardInterrupt)):
    """ 'ok', or 'error' when entering failed """
    if op.startswith('enter'):
        name = op.split()[1]
        try:
            cm = ChangeDir(NAMES.get(name, name))
            got = cm.__enter__()
        except (ValueError, OSError):
            return 'error'
        stack.append((cm, got))
        return 'ok'
    if op == 'up':
        os.chdir('..')
    elif op == 'rm':
        shutil.rmtree(os.getcwd())
    elif op == 'touch':
        open('touched', 'w').close()
    else:
        cm, _ = stack.pop()
        if op == 'exit':
            cm.__exit__(None, None, None)
        else:
            try:
                raise exc[0]('x') if op == 'raise' else exc[1]()
            except BaseException:
                if cm.__exit__(*sys.exc_info()):
                    return 'swallowed the exception'
    return 'ok'


def observe(root):
    try:
        cwd = os.path.relpath(os.path.realpath(os.getcwd()), root)
        cwd = '' if cwd == '.' else cwd
    except FileNotFoundError:
        cwd = None
    dirs, files = set(), set()
    for d, ds, fs in os.walk(root):
        r = os.path.relpath(d, root)
        r = '' if r == '.' else r
        dirs |= {r} | {f'{r}/{x}'.lstrip('/') for x in ds}
        files |= {f'{r}/{f}'.lstrip('/') for f in fs}
    return cwd, dirs, files


def clean(root):
    os.chdir(root)
    for e in os.listdir(root):
        if e not in ('ro', 'locked'):
            p = os.path.join(root, e)
            shutil.rmtree(p) if os.path.isdir(p) else os.remove(p)


def play(res, root, seq, exc=(Boom, KeyboardInterrupt)):
    """ runs one sequence on the real code; the model is compared after every operation """
    clean(root)
    open('f', 'w').close()
    m, stack = Model(), []
    for n, op in enumerate(seq):
        exp = m.step(op)
        got = real_step(op, root, stack, exc)
        res.transitions += 1
        cwd, dirs, files = observe(root)
        if got != exp:
            res.fail(f"{list(seq[:n + 1])}: {got}, expected {exp}")
        elif cwd != m.cwd:
            res.fail(f"{list(seq[:n + 1])}: working directory {cwd!r}, expected {m.cwd!r}")
        elif (dirs, files) != (m.dirs, m.files):
            res.fail(f"{list(seq[:n + 1])}: on disk {sorted(dirs)} {sorted(files)}, expected {sorted(m.dirs)} {sorted(m.files)}")
        else:
            if stack and op.startswith('enter') and got == 'ok':
                cm, back = stack[-1]
                where = os.path.relpath(os.path.realpath(cm.get_cwd()), root)
                res.check(back is cm and where == m.cwd, f"{list(seq[:n + 1])}: get_cwd {where!r}")
            continue
        return
    res.traces += 1


def with_programs(res, root):
    """ the with statement itself: nested to depth 3, leaving by end, exception, return, break """
    def body(kind):
        if kind == 'raise':
            raise Boom(1)

    for names in product(('a', 'b', 'a/b'), repeat=2):
        for kinds in product(('end', 'raise', 'return', 'break'), repeat=2):
            clean(root)
            os.mkdir('a')
            seen = []

            def run(depth):
                for _ in range(1):
                    here = os.path.realpath(os.getcwd())
                    if names[depth] == 'a/b' and not os.path.isdir('a'):
                        os.mkdir('a')
                    try:
                        with ChangeDir(names[depth]) as cd:
                            seen.append(os.path.realpath(cd.get_cwd()) == os.path.realpath(os.getcwd()))
                            seen.append(os.path.realpath(os.getcwd()) == os.path.join(here, names[depth]))
                            if depth == 0:
                                run(1)
                                seen.append(os.path.realpath(os.getcwd()) == os.path.join(here, names[depth]))
                            if kinds[depth] == 'return':
                                return
                            if kinds[depth] == 'break':
                                break
                            body(kinds[depth])
                            seen.append('end')
                    except Boom:
                        seen.append('boom')
                    finally:
                        seen.append(os.path.realpath(os.getcwd()) == here)
            run(0)
            res.traces += 1
            res.states += 1
            res.transitions += 4
            exp_b = sum(k == 'raise' for k in kinds)
            res.check(False not in seen and seen.count('boom') == exp_b and seen.count('end') == kinds.count('end'),
                      f"with {names} left by {kinds}: {seen}")


def cases(tier):
    depth = 5 if tier == 'quick' else 6
    out = [['with']]
    firsts = [s for s in product(OPS, repeat=2) if legal(s)]
    out += [['seq', list(s), depth] for s in firsts]
    out += [['exc', n, depth - 2] for n in range(len(EXC))]
    return out


def legal(seq):
    m = Model()
    for op in seq:
        if not m.enabled(op):
            return False
        m.step(op)
    return True


def extend(seq, depth):
    """ all legal sequences of exactly `depth` operations with the given prefix (their prefixes are checked on the way) """
    if len(seq) == depth:
        yield seq
        return
    for op in OPS:
        if legal(seq + (op,)):
            yield from extend(seq + (op,), depth)


def run_case(case):
    res = Result()
    home = os.getcwd()
    root = os.path.realpath(tempfile.mkdtemp(prefix='c23_'))
    try:
        os.mkdir(os.path.join(root, 'ro'), 0o555)
        os.mkdir(os.path.join(root, 'locked'), 0o000)
        os.chown(root, NOBODY, NOBODY)
        os.seteuid(NOBODY)          # real permission errors, and nothing but the scratch directory to write in
        if case[0] == 'with':
            with_programs(res, root)
        elif case[0] == 'exc':
            e = EXC[case[1]]
            for seq in extend((), case[2]):
                if any(op.startswith('raise') for op in seq):
                    res.states += 1
                    play(res, root, seq, (e, e))
        else:
            for seq in extend(tuple(case[1]), case[2]):
                res.states += 1
                play(res, root, seq)
                if res.violations:
                    break
            res.sample = ' ; '.join(case[1]) + ' ; ...'
    finally:
        os.seteuid(0)
        os.chdir(home)
        shutil.rmtree(root, ignore_errors=True)
    return res


if __name__ == '__main__':
    harness.main(globals())
