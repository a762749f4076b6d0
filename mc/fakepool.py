"""
A stand-in for multiprocessing.Pool under the control of the checker.  Tasks and results pass through pickle as they
do between real processes; tasks are cut into chunks exactly as Pool cuts them; the chunks complete in the order that
the schedule says.  Ordered interfaces (map, imap, starmap, ...) deliver in input order, the unordered one in completion
order.
"""
import contextlib
import itertools
import multiprocessing
import multiprocessing.pool
import pickle

_memo = {}


def reset():
    """ Forget the results of earlier tasks (before a case, so that they are only shared between its schedules). """
    _memo.clear()


class Schedule:
    """ order: function(number of chunks, call number) -> permutation of the chunk numbers """

    def __init__(self, order):
        self.order = order
        self.calls = []         # (number of tasks, number of chunks, order)
        self.tasks_run = 0


class FakePool:
    def __init__(self, schedule, processes=None, initializer=None, initargs=(), *args, **kwargs):
        self.sched = schedule
        self.memo = _memo
        if initializer is not None:
            # worker set-up: the tasks may depend on it, so nothing is remembered across pools
            self.memo = {}
            f, a = pickle.loads(pickle.dumps((initializer, tuple(initargs))))
            f(*a)
        self.processes = processes or 8
        if not isinstance(self.processes, int) or self.processes < 1:
            raise ValueError("Number of processes must be at least 1")
        self.closed = False

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        self.terminate()

    def terminate(self):
        self.closed = True

    def close(self):
        self.closed = True

    def join(self):
        pass

    def _results(self, func, items, chunksize, star=False):
        """ List of chunks of pickled results, in input order. """
        if self.closed:
            raise ValueError("Pool not running")
        items = list(items)
        chunks = [items[k:k + chunksize] for k in range(0, len(items), chunksize)]
        out = []
        for ch in chunks:
            key = pickle.dumps((func, ch, star))
            if key not in self.memo:
                f, args, st = pickle.loads(key)
                self.sched.tasks_run += len(args)
                self.memo[key] = pickle.dumps([f(*a) if st else f(a) for a in args])
            out.append(self.memo[key])
        return out

    def imap_unordered(self, func, iterable, chunksize=1):
        if chunksize < 1:
            raise ValueError(f"Chunksize must be 1+, not {chunksize}")
        res = self._results(func, iterable, chunksize)
        order = list(self.sched.order(len(res), len(self.sched.calls)))
        assert sorted(order) == list(range(len(res)))
        self.sched.calls.append((len(res), tuple(order)))

        def deliver():
            for k in order:
                if self.closed:
                    # results that have not arrived when the pool is terminated never arrive
                    raise RuntimeError("results requested from a terminated pool")
                yield from pickle.loads(res[k])
        return deliver()

    def imap(self, func, iterable, chunksize=1):
        if chunksize < 1:
            raise ValueError(f"Chunksize must be 1+, not {chunksize}")
        for r in self._results(func, iterable, chunksize):
            yield from pickle.loads(r)

    def _chunk(self, items, chunksize):
        if chunksize is None:
            chunksize, extra = divmod(len(items), self.processes * 4)
            chunksize += bool(extra)
        return max(1, chunksize)

    def map(self, func, iterable, chunksize=None):
        items = list(iterable)
        return [x for r in self._results(func, items, self._chunk(items, chunksize)) for x in pickle.loads(r)]

    def starmap(self, func, iterable, chunksize=None):
        items = list(iterable)
        return [x for r in self._results(func, items, self._chunk(items, chunksize), True) for x in pickle.loads(r)]

    def apply(self, func, args=(), kwds=None):
        f, a, k = pickle.loads(pickle.dumps((func, args, kwds or {})))
        return pickle.loads(pickle.dumps(f(*a, **k)))

    def apply_async(self, func, args=(), kwds=None, callback=None, error_callback=None):
        return _Async(self.apply(func, args, kwds), callback)

    def map_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return _Async(self.map(func, iterable, chunksize), callback)

    def starmap_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return _Async(self.starmap(func, iterable, chunksize), callback)


class _Async:
    def __init__(self, value, callback):
        self.value = value
        if callback:
            callback(value)

    def get(self, timeout=None):
        return self.value

    def wait(self, timeout=None):
        pass

    def ready(self):
        return True

    def successful(self):
        return True


_real_pool = multiprocessing.Pool
_current = [None]


def _dispatch(*args, **kwargs):
    """ multiprocessing.Pool from now on: the stand-in inside controlled(), the real one outside. """
    if _current[0] is None:
        return _real_pool(*args, **kwargs)
    return FakePool(_current[0], *args, **kwargs)


_real_count = multiprocessing.cpu_count
multiprocessing.Pool = _dispatch
multiprocessing.cpu_count = lambda: 8 if _current[0] is not None else _real_count()


@contextlib.contextmanager
def controlled(order):
    s = Schedule(order)
    _current[0] = s
    try:
        yield s
    finally:
        _current[0] = None


def all_orders(n, bound, wide=12):
    """ All completion orders of n chunks up to the bound; above it every order in which one chunk arrives first or
    last (up to `wide` chunks evenly chosen), the reversal and the odd-even interleaving. """
    if n <= bound:
        yield from itertools.permutations(range(n))
        return
    base = list(range(n))
    seen = {tuple(base[::-1]), tuple(base[1::2] + base[::2])}
    step = max(1, n // wide)
    for i in sorted(set(base[::step]) | {n - 1}):
        b = base[:i] + base[i + 1:]
        seen.add(tuple([i] + b))
        seen.add(tuple(b + [i]))
    yield from sorted(seen)
