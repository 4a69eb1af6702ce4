"""Cooperative scheduler: the ranks of one or more runs as threads of one process, exactly one of which runs at a time.
A thread stops at every collective of its communicator and at every file-system call under the watched directory;
the schedule (a list of run numbers, then a seeded random choice) decides who goes on."""
import os, random, threading


class Deadlock(Exception):
    pass


class Sched:
    def __init__(self, schedule=(), seed=0, watch=None):
        self.cv = threading.Condition()
        self.order, self.rng = list(schedule), random.Random(seed)
        self.threads, self.waiting, self.running, self.dead = {}, {}, None, None
        self.log, self.watch, self.local, self.steps = [], watch, threading.local(), 0

    # ---- scheduling
    def _pick(self):
        if self.running is not None or len(self.waiting) < len(self.threads): return
        ready = [t for t, p in self.waiting.items() if p is None or p()]
        if not ready:
            if self.waiting: self.dead = 'deadlock of ' + ', '.join(sorted(str(t) for t in self.waiting))
            self.cv.notify_all()
            return
        ready.sort()
        while self.order and not any(t[0] == self.order[0] for t in ready): self.order.pop(0)
        if self.order:
            r = self.order[0]
            self.running = next(t for t in ready if t[0] == r)
        else: self.running = self.rng.choice(ready)
        self.cv.notify_all()

    def point(self, pred=None, fs=False):
        me = getattr(self.local, 'me', None)
        if me is None: return
        with self.cv:
            self.steps += 1
            if self.steps > 20000 and not self.dead:         # nobody gets anywhere: an endless search
                self.dead = 'endless run'
                self.cv.notify_all()
            if self.dead: raise Deadlock(self.dead)
            if self.running == me: self.running = None
            self.waiting[me] = pred
            self._pick()
            while self.running != me:
                if self.dead: raise Deadlock(self.dead)
                self.cv.wait()
            del self.waiting[me]
            if fs and self.order and self.order[0] == me[0]: self.order.pop(0)

    def run(self, jobs, timeout=60):
        """jobs: {(run, rank): function}; returns {(run, rank): (result, exception)}"""
        res = {}

        def body(t, f):
            self.local.me = t
            try:
                self.point()
                res[t] = (f(), '')
            except BaseException as e:     # noqa
                res[t] = (None, type(e).__name__ + ': ' + str(e)[:200])
            finally:
                with self.cv:
                    del self.threads[t]
                    self.waiting.pop(t, None)
                    if self.running == t: self.running = None
                    self._pick()
        for t, f in jobs.items(): self.threads[t] = threading.Thread(target=body, args=(t, f), daemon=True)
        ths = list(self.threads.values())
        saved = {n: getattr(os, n) for n in ('mkdir', 'stat', 'lstat', 'rename', 'rmdir', 'remove', 'unlink')}
        if self.watch:
            for n, f in saved.items(): setattr(os, n, self._wrap(n, f))
        try:
            for th in ths: th.start()
            for th in ths: th.join(timeout)
        finally:
            for n, f in saved.items(): setattr(os, n, f)
        return res

    def _wrap(self, name, f):
        def g(path, *a, **k):
            me = getattr(self.local, 'me', None)
            p = os.fspath(path) if not isinstance(path, int) else ''
            if me is None or not os.path.normpath(p).startswith(self.watch): return f(path, *a, **k)
            self.point(fs=True)
            ok = False
            try:
                r = f(path, *a, **k)
                ok = True
                return r
            finally: self.log.append(dict(run=me[0], rank=me[1], op=name, path=os.path.relpath(os.path.normpath(p), self.watch), ok=ok))
        return g

    def comm(self, run, size):
        st = dict(kinds={}, sent={}, arrived={})
        return [Comm(self, run, k, size, st) for k in range(size)]


class Comm:
    def __init__(self, sched, run, rank, size, st): self.s, self.run, self.rank, self.size, self.st, self.n = sched, run, rank, size, st, 0
    def Get_rank(self): return self.rank
    def Get_size(self): return self.size

    def _enter(self, kind):
        k = self.n
        self.n += 1
        if self.st['kinds'].setdefault(k, kind) != kind: raise RuntimeError(f'collective mismatch: rank {self.rank} calls {kind}, others {self.st["kinds"][k]}')
        return k

    def barrier(self):
        k = self._enter('barrier')
        self.st['arrived'].setdefault(k, set()).add(self.rank)
        self.s.point(lambda: len(self.st['arrived'][k]) == self.size)
    Barrier = barrier

    def bcast(self, x, root=0):
        k = self._enter('bcast')
        if self.rank == root:
            self.st['sent'][k] = x
            self.s.point()
            return x
        self.s.point(lambda: k in self.st['sent'])
        return self.st['sent'][k]

    # the remaining collectives a driver of these routines may as well use
    def _all(self, kind, x, need):
        k = self._enter(kind)
        d = self.st['sent'].setdefault(k, {})
        d[self.rank] = x
        self.s.point((lambda: len(d) == self.size) if need else None)
        return [d.get(r) for r in range(self.size)]

    def allgather(self, x): return self._all('allgather', x, True)

    def gather(self, x, root=0):
        r = self._all('gather', x, self.rank == root)
        return r if self.rank == root else None

    def allreduce(self, x, op=None):
        r = self._all('allreduce', x, True)
        f = op if callable(op) and not hasattr(op, 'Is_predefined') else (lambda a, b: a + b)
        if op is not None and f is not op:
            from mpi4py import MPI
            f = {MPI.MAX: max, MPI.MIN: min, MPI.LAND: lambda a, b: a and b, MPI.LOR: lambda a, b: a or b, MPI.PROD: lambda a, b: a * b}.get(op, f)
        y = r[0]
        for z in r[1:]: y = f(y, z)
        return y

    def reduce(self, x, op=None, root=0):
        y = self.allreduce(x, op)
        return y if self.rank == root else None

    def scatter(self, x, root=0): return self.bcast(x, root)[self.rank]

    def Bcast(self, x, root=0):
        y = self.bcast(x, root)
        if self.rank != root: x[...] = y
