"""
Common machinery of the checks: running enumerated cases in forked workers, counting what was explored,
replay files, known findings and evidence.

A check is a module /verif/checks/cNN.py that defines
    PID, LEVEL ('model_checking'), RULE, ASSUMPTIONS
    cases(tier)      -> list of JSON-able case descriptions (the enumerated space, simplest first)
    run_case(case)   -> Result   (explores one case completely)
and ends with  harness.main(globals()).

Exit status: 0 held everywhere, 1 violation.  A case that raises is a violation of the property (every case
lies in the domain where the property promises an answer).
"""
import contextlib
import io
import json
import os
import pickle
import select
import signal
import struct
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
if REPO not in sys.path:
    sys.path.insert(0, REPO)
sys.dont_write_bytecode = True

NPROC = max(1, min(8, os.cpu_count() or 1))
HARD_LIMIT = {'quick': 780, 'thorough': 6 * 3600}


class Violation(Exception):
    pass


def _hook(tp, val, tb):
    """ An exception outside a case (importing the package, building the cases with it) is reported as a violation:
    on the unchanged tree none occurs. """
    traceback.print_exception(tp, val, tb)
    pid = os.path.basename(sys.argv[0]).split('.')[0].upper()
    rdir = os.path.join(VERIF, 'evidence', 'replay')
    os.makedirs(rdir, exist_ok=True)
    path = os.path.join(rdir, f'{pid}.json')
    with open(path, 'w') as f:
        json.dump({'property': pid, 'case': None,
                   'messages': [''.join(traceback.format_exception(tp, val, tb))]}, f, indent=1)
    print(f"VIOLATION property={pid} replay={path}")
    sys.stdout.flush()
    os._exit(1)


sys.excepthook = _hook


class Result:
    """ What one case explored. """

    def __init__(self):
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.extra = {}
        self.violations = []
        self.known = []          # keys of known findings that were hit
        self.sample = None
        self.outcomes = set()    # distinct observed outcomes (hashable, small)

    def bump(self, name, n=1):
        self.extra[name] = self.extra.get(name, 0) + n

    def fail(self, msg):
        if len(self.violations) < 5:
            self.violations.append(str(msg)[:2000])

    def check(self, cond, msg):
        if not cond:
            self.fail(msg() if callable(msg) else msg)
        return bool(cond)


@contextlib.contextmanager
def quiet():
    """ The code under test prints progress to stdout. """
    with contextlib.redirect_stdout(io.StringIO()):
        yield


@contextlib.contextmanager
def captured():
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        yield buf


def _run_one(run_case, case):
    try:
        with quiet():
            res = run_case(case)
        return res
    except Violation as e:
        res = Result()
        res.fail(str(e))
        return res
    except RecursionError as e:
        res = Result()
        res.fail(f"exception: {e!r}")
        return res
    except Exception:
        res = Result()
        res.fail("exception on an input in the domain of the property:\n" + traceback.format_exc(limit=-6))
        return res


def _worker(rfd, wfd, run_case, cases):
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    out = os.fdopen(wfd, 'wb')
    while True:
        tok = os.read(rfd, 4)
        if len(tok) < 4:
            break
        i = struct.unpack('<I', tok)[0]
        pickle.dump(('start', i), out)
        out.flush()
        pickle.dump(('done', i, _run_one(run_case, cases[i])), out)
        out.flush()
    pickle.dump(('end',), out)
    out.close()


class _Reader:
    """ Incremental unpickler on a pipe. """

    def __init__(self, fd):
        self.fd = fd
        self.buf = b''

    def feed(self):
        data = os.read(self.fd, 1 << 20)
        if not data:
            return None
        self.buf += data
        msgs = []
        while self.buf:
            f = io.BytesIO(self.buf)
            try:
                msgs.append(pickle.load(f))
            except (EOFError, pickle.UnpicklingError, ValueError, IndexError, struct.error):
                break
            self.buf = self.buf[f.tell():]
        return msgs


def pmap(run_case, cases, deadline, nproc=None):
    """ Yield (index, Result) for every case; missing ones (hang or crash) come back as violations. """
    nproc = min(nproc or NPROC, max(1, len(cases)))
    sys.stdout.flush()
    sys.stderr.flush()
    # token pipe: filled by a feeder child so that any number of cases fits
    tr, tw = os.pipe()
    readers, pids = {}, []
    for _ in range(nproc):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(r)
                os.close(tw)
                for other in readers.values():
                    os.close(other.fd)
                _worker(tr, w, run_case, cases)
            except BaseException:
                traceback.print_exc()
                code = 3
            os._exit(code)
        os.close(w)
        readers[pid] = _Reader(r)
        pids.append(pid)
    feeder = os.fork()
    if feeder == 0:
        os.close(tr)
        try:
            for i in range(len(cases)):
                os.write(tw, struct.pack('<I', i))
        except OSError:
            pass
        os._exit(0)
    os.close(tw)
    os.close(tr)

    done, started = set(), {}
    live = dict(readers)
    try:
        while live:
            left = deadline - time.time()
            if left <= 0:
                break
            fds = {rd.fd: pid for pid, rd in live.items()}
            ready, _, _ = select.select(list(fds), [], [], min(left, 5))
            for fd in ready:
                pid = fds[fd]
                msgs = live[pid].feed()
                if msgs is None:
                    os.close(fd)
                    del live[pid]
                    continue
                for m in msgs:
                    if m[0] == 'start':
                        started[pid] = m[1]
                    elif m[0] == 'done':
                        done.add(m[1])
                        started.pop(pid, None)
                        yield m[1], m[2]
    finally:
        for pid in pids + [feeder]:
            with contextlib.suppress(OSError):
                os.kill(pid, signal.SIGKILL)
        for pid in pids + [feeder]:
            with contextlib.suppress(OSError):
                os.waitpid(pid, 0)
    hung = set(started.values())
    for i in range(len(cases)):
        if i not in done:
            res = Result()
            if i in hung or not hung:
                res.fail("no answer: the code under test did not finish (time limit) or ended the process")
                yield i, res


def load_known(pid):
    out = {}
    path = os.path.join(VERIF, 'known_findings.jsonl')
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if not line:
                continue
            d = json.loads(line)
            if d.get('status') == 'open' and d['property'] == pid:
                out[d['key']] = d
    return out


def main(mod):
    pid = mod['PID']
    args = sys.argv[1:]
    tier = os.environ.get('VERIF_TIER', 'quick')
    replay = None
    while args:
        a = args.pop(0)
        if a == '--tier':
            tier = args.pop(0)
        elif a == '--replay':
            replay = args.pop(0)
        elif a == '--seed':
            os.environ['VERIF_SEED'] = args.pop(0)
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    run_case = mod['run_case']
    known = load_known(pid)

    if replay:
        d = json.load(open(replay))
        res = _run_one(run_case, d['case'])
        for v in res.violations:
            print(v)
        bad = bool(res.violations)
        print(f"replay of {replay}: {'violated' if bad else 'held'}")
        if bad:
            print(f"VIOLATION property={pid} replay={replay}")
        sys.exit(1 if bad else 0)

    with quiet():
        cases = mod['cases'](tier)
    cases = json.loads(json.dumps(cases))      # the replay file holds exactly what was run
    deadline = t0 + HARD_LIMIT[tier]
    tot = Result()
    n_cases = 0
    bad = []
    samples = []
    known_hit = {}
    grace = float(os.environ.get('MC_GRACE', '60'))      # seconds a run goes on after the first violation
    explored = pmap(run_case, cases, deadline, mod.get('NPROC'))
    for i, res in explored:
        n_cases += 1
        tot.states += res.states
        tot.transitions += res.transitions
        tot.traces += res.traces
        tot.outcomes |= set(res.outcomes)
        for k, v in res.extra.items():
            tot.bump(k, v)
        for k in res.known:
            known_hit.setdefault(k, i)
            if k not in known:
                res.fail(f"deviation {k!r} is not a listed known finding")
        if res.sample is not None:
            samples.append((i, res.sample))
        if res.violations:
            bad.append((i, res.violations))
            deadline = min(deadline, time.time() + grace)
        if bad and time.time() > deadline:
            break
    explored.close()
    samples.sort(key=lambda x: x[0])
    step = max(1, len(samples) // 8)
    evidence = {
        'property': pid, 'tier': tier if tier in ('quick', 'thorough') else 'quick', 'seed': seed,
        'level': mod.get('LEVEL', 'model_checking'),
        'coverage': {
            'states': tot.states, 'transitions': tot.transitions,
            'traces_validated_against_impl': tot.traces,
            'cases': n_cases, 'distinct_outcomes': len(tot.outcomes),
            'rule': mod['RULE'],
            'exhaustive': n_cases == len(cases),
            'samples': [s for _, s in samples[::step]][:10] or [repr(c)[:300] for c in cases[:3]],
            **{k: v for k, v in sorted(tot.extra.items())},
        },
        'assumptions': mod.get('ASSUMPTIONS', []),
        'wall_s': round(time.time() - t0, 2),
        'violations': len(bad),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', f'{pid}.json'), 'w') as f:
        json.dump(evidence, f, indent=1, default=str)
        f.write('\n')

    for k in sorted(known_hit):
        if k in known:
            print(f"KNOWN-FINDING: property={pid} {known[k]['what']}")
    print(f"{pid} tier={tier} cases={n_cases}/{len(cases)} states={tot.states} transitions={tot.transitions} "
          f"traces={tot.traces} outcomes={len(tot.outcomes)} {tot.extra} wall={time.time() - t0:.1f}s")
    if bad:
        bad.sort()
        i, msgs = bad[0]
        rdir = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, f'{pid}.json')
        with open(path, 'w') as f:
            json.dump({'property': pid, 'case': cases[i], 'messages': msgs,
                       'replay_with': f'/opt/venv/bin/python -B /verif/checks/{pid.lower()}.py --replay {path}',
                       'violating_cases': len(bad)}, f, indent=1)
        for m in msgs[:3]:
            print(m)
        print(f"{len(bad)} violating case(s)")
        print(f"VIOLATION property={pid} replay={path}")
        sys.stdout.flush()
        os._exit(1)
    sys.stdout.flush()
    os._exit(0)
