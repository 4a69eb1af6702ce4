"""Driver (C01, C02): distributor on real MPI communicators.  Usage: d_mpi.py <outdir> <programs.json>  under mpirun."""
import json, os, random, sys, time
import numpy as np
from mpi4py import MPI
from dga import mpi_aux
comm = MPI.COMM_WORLD
r, p = comm.Get_rank(), comm.Get_size()
out = open(os.path.join(sys.argv[1], f'p{p}_r{r}.json'), 'w')
progs = json.load(open(sys.argv[2]))


def part(d):
    return dict(tasks=[int(x) for x in d.my_tasks], sizes=[int(x) for x in d.sizes], mysize=int(d.my_size),
                slice=[int(x) for x in np.arange(d.ntasks)[d.my_slice]], ntasks=int(d.ntasks), rank=int(d.my_rank),
                size=int(d.mpi_size), isroot=bool(d.is_root))


def items(a):
    a = np.asarray(a)
    a = a.reshape(a.shape[0], -1) if a.size else a.reshape(a.shape[0], 0)
    if np.iscomplexobj(a): a = np.concatenate((a.real, a.imag), axis=1)
    return [[int(np.rint(x)) for x in row] for row in a]


def data(n, rest, dt, salt):
    k = int(np.prod(rest)) if len(rest) else 1
    base = (np.arange(n)[:, None] * 7 + np.arange(k)[None, :] * 3 + salt) % 100
    a = base.astype(dt)
    if np.issubdtype(np.dtype(dt), np.complexfloating): a = (a + 1j * (base * 5 % 61 + salt)).astype(dt)
    return np.ascontiguousarray(a.reshape((n,) + tuple(rest)))


for pi, pr in enumerate(progs):
    if pr['op'] == 'partition':
        try:
            rec = part(mpi_aux.create_distributor(pr['n'], comm))
            rec['exc'] = ''
        except Exception as e:
            rec = dict(exc=repr(e)[:200])
        out.write(json.dumps(rec) + '\n'); out.flush()
        continue
    n, rest, dt = pr['n'], pr['rest'], pr['dtype']
    rng = random.Random(pr['salt'] * 31 + r)
    d = mpi_aux.create_distributor(n, comm)
    sl = d.my_slice
    for si, op in enumerate(pr['prog']):
        root = op['root'] % p
        salt = pr['salt'] + 11 * si
        to = {} if root == 0 else dict(root=root)      # the first rank is the root when none is named
        if pr['delay']: time.sleep(rng.random() * 0.002)
        rec = dict(exc='')
        try:
            full = data(n, rest, dt, salt)
            if op['kind'] == 'scatter':
                x = full if r == root else None
                y0 = None if x is None else x.copy()
                y = d.scatter(x, **to)
                rec['input'] = items(full) if r == root else []
            elif op['kind'] == 'allreduce':
                x = data(3, rest, dt, salt + 13 * r)
                y0 = x.copy()
                y = d.allreduce(x)
                rec['input'] = items(x)
            elif op['kind'] == 'bcast':
                x = data(n, rest, dt, salt + 17 * r)
                y0 = x.copy()
                y = d.bcast(x if r == root else None, **to)
                rec['input'] = items(x)
            else:
                x = full[sl].copy()
                y0 = x.copy()
                y = d.allgather(x) if op['kind'] == 'allgather' else d.gather(x, **to)
                rec['input'] = items(x)
            rec['out'] = items(y) if y is not None else []
            rec['same'] = bool(x is None or np.array_equal(x, y0))
            rec['dtype'] = str(y.dtype) if y is not None else ''
            rec['rest'] = [int(s) for s in y.shape[1:]] if y is not None else []
        except Exception as e:
            rec['exc'] = repr(e)[:200].replace('"', "'").replace('\\', '/')
        rec.update(kind=op['kind'], root=root, sizes=[int(s) for s in d.sizes])
        out.write(json.dumps(rec) + '\n'); out.flush()
out.close()
comm.Barrier()
