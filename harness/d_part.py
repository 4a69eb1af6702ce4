"""Driver (C01): the partition for many task and rank counts, over stand-in communicators."""
import sys
import numpy as np
from rec import Rec, THOROUGH
from dga import mpi_aux


class FakeComm:
    def __init__(self, r, p): self._r, self._p = r, p
    def Get_rank(self): return self._r
    def Get_size(self): return self._p
    rank = property(Get_rank)
    size = property(Get_size)


def part(d):
    return dict(tasks=[int(x) for x in d.my_tasks], sizes=[int(x) for x in d.sizes], mysize=int(d.my_size),
                slice=[int(x) for x in np.arange(d.ntasks)[d.my_slice]], ntasks=int(d.ntasks), rank=int(d.my_rank),
                size=int(d.mpi_size), isroot=bool(d.is_root))


rec = Rec(sys.argv[1])
P, N = (24, 60) if THOROUGH else (14, 33)
pairs = [(n, p) for p in range(1, P) for n in range(0, N)] + [(n, p) for p in (16, 31, 48) for n in (1, 47, 48, 49, 100, 211)]
for n, p in pairs:
    rec.run('partition', lambda: dict(ranks=[part(mpi_aux.create_distributor(n, FakeComm(r, p))) for r in range(p)]), n=n, p=p,
            key=f'partition n={n} p={p}')


def span(d):
    """the same for many tasks: each block as first task, length and whether it is consecutive"""
    t = np.asarray(d.my_tasks)
    sl = np.arange(d.ntasks)[d.my_slice]
    blk = lambda x: dict(first=int(x[0]) if len(x) else 0, len=len(x), dense=bool(np.all(np.diff(x.astype(np.int64)) == 1)))
    return dict(tasks=blk(t), slice=blk(sl), sizes=[int(x) for x in d.sizes], mysize=int(d.my_size), ntasks=int(d.ntasks))


big = [(n, p) for n in (255, 256, 1000, 4096, 32767, 65537, 100003, 1000000, 2097151) + ((16777217, 30000001) if THOROUGH else ()) for p in (1, 2, 3, 7, 16)] + [(20000003, 3)]
for n, p in big:
    rec.run('bigpart', lambda: dict(ranks=[span(mpi_aux.create_distributor(n, FakeComm(r, p))) for r in range(p)]), n=n, p=p, key=f'partition n={n} p={p}')
