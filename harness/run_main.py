"""One whole run of the real main program, every collective and file access recorded.  run_main.py <record prefix> <input dir>   (under mpirun)"""
import builtins, json, os, sys
prefix, indir = sys.argv[1], os.path.realpath(sys.argv[2])
sys.argv = ['main', '-c', 'dga_config.yaml', '-p', indir + '/']
import numpy as np, h5py
import matplotlib.pyplot as plt
from matplotlib.figure import Figure
from mpi4py import MPI
world = MPI.COMM_WORLD
EV = []
state = dict(on=False, colls=0)


def note(kind, path):
    if not state['on']: return
    path = os.path.realpath(os.path.join(os.getcwd(), os.fspath(path)))
    if (kind == 'mkdir') == os.path.exists(path) and kind != 'write': return      # fails, changes and yields nothing
    if path.startswith(indir + '/'): path = path[len(indir) + 1:]
    elif kind == 'read': return                      # libraries, fonts, the interpreter
    EV.append(dict(t='acc', kind=kind, path=path, dir=os.path.dirname(path)))


def hook(name, args):
    if not state['on']: return
    try:
        if name == 'open' and isinstance(args[0], (str, bytes, os.PathLike)):
            p, mode, flags = args
            p = os.fsdecode(p)
            if p.startswith(('/dev/', '/proc/')) or p.endswith('.pyc'): return
            wr = (flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND)) if isinstance(flags, int) and flags else (mode and set(mode) & set('wax+'))
            note('write' if wr else 'read', p)
        elif name == 'os.mkdir': note('mkdir', os.fsdecode(args[0]))
        elif name in ('os.remove', 'os.rmdir', 'shutil.rmtree', 'os.unlink'): note('del', os.fsdecode(args[0]))
        elif name in ('os.rename', 'shutil.move'):
            note('del', os.fsdecode(args[0])); note('write', os.fsdecode(args[1]))
        elif name in ('shutil.copyfile',):
            note('read', os.fsdecode(args[0])); note('write', os.fsdecode(args[1]))
        elif name == 'os.truncate': note('write', os.fsdecode(args[0]))
    except (TypeError, ValueError): pass


sys.addaudithook(hook)
RealFile = h5py.File


class File(RealFile):
    def __init__(self, name, mode='r', *a, **k):
        if isinstance(name, (str, bytes, os.PathLike)): note('read' if mode == 'r' else 'write', os.fsdecode(name))
        super().__init__(name, mode, *a, **k)


h5py.File = File


def stub(fname, *a, **k):
    if isinstance(fname, (str, os.PathLike)): open(fname, 'w').close()


plt.savefig = stub
Figure.savefig = lambda self, fname, *a, **k: stub(fname)
plt.tight_layout = lambda *a, **k: None
Figure.tight_layout = lambda *a, **k: None
NAMES = {n.lower() for n in ('Barrier', 'Bcast', 'Scatter', 'Scatterv', 'Gather', 'Gatherv', 'Allgather', 'Allgatherv', 'Reduce', 'Allreduce', 'Alltoall', 'Alltoallv',
                             'Reduce_scatter', 'Reduce_scatter_block', 'Scan', 'Exscan', 'Ibarrier', 'Ibcast', 'Split', 'Dup', 'Create')}


class Comm:
    """the communicator, recording the order of collective calls"""

    def __getattr__(self, name):
        a = getattr(world, name)
        low = name.lower()
        if low not in NAMES: return a

        def call(*args, **kw):
            root = kw.get('root', 0)
            if low in ('bcast',) and len(args) > 1: root = args[1]
            if low in ('scatter', 'scatterv', 'gather', 'gatherv') and len(args) > (2 if name[0].isupper() else 1): root = args[2 if name[0].isupper() else 1]
            EV.append(dict(t='coll', name=low[:-1] if low.endswith('v') else low, root=int(root)))
            state['on'] = False
            with open(f'{prefix}.at{world.rank}', 'w') as f: f.write(f'{name} after {len(EV) - 1} steps')
            state['on'] = True
            return a(*args, **kw)
        return call


def dump(exc=''):
    state['on'] = False
    with open(f'{prefix}.r{rank}.tmp', 'w') as f: json.dump(dict(ev=EV, exc=exc), f)
    os.rename(f'{prefix}.r{rank}.tmp', f'{prefix}.r{rank}')


rank = world.rank
try:
    from dga import dga_main
    dga_main.comm = Comm()
    state['on'] = True
    dga_main.main()
    dump()
except BaseException as e:      # noqa
    import traceback
    dump(f'{type(e).__name__}: {str(e)[:200]}')
    traceback.print_exc()
    sys.stderr.flush()
    if not MPI.Is_finalized(): world.Abort(3)
