"""Every program of collectives is model checked over all interleavings (3 and 4 ranks); programs of the model and random ones run on real communicators with every data type, trailing shape and root, including delayed ranks, and each return value is judged by the specification."""
import random
from . import mpi_common


def run(ck):
    ck.model('Collectives', 'Collectives4.cfg', workers=8)
    if ck.thorough: ck.model('Collectives', 'Collectives.cfg', workers=8)
    beh = ck.behaviours('CollectivesGen', 'CollectivesGen.cfg')
    rng = random.Random(ck.seed)
    rng.shuffle(beh)
    shapes = [[], [1], [3], [2, 3], [2, 1, 2], [0], [2, 0], [1, 2, 1, 2]]
    dts = ['float64', 'complex128', 'int64', 'float32', 'complex64', 'int32']
    progs = []
    for i, b in enumerate(beh if ck.thorough else beh[:150]):
        n = b['n'] if i % 3 else rng.choice([5, 6, 7, 9, 11, 16])
        progs.append(dict(op='coll', n=n, prog=b['prog'], rest=shapes[i % len(shapes)], dtype=dts[(i // 2) % len(dts)], salt=i % 50, delay=i % 4 == 0))
    for sh in shapes:
        for dt in dts:
            k = rng.choice(['scatter', 'gather', 'allgather', 'allreduce', 'bcast'])
            progs.append(dict(op='coll', n=rng.randint(1, 8), prog=[dict(kind=k, root=rng.randint(0, 4))], rest=sh, dtype=dt, salt=rng.randint(0, 40), delay=False))
    for k in ['scatter', 'gather', 'allgather', 'allreduce', 'bcast']:      # messages beyond the eager limit of the MPI library
        progs.append(dict(op='coll', n=rng.randint(3, 7), prog=[dict(kind=k, root=rng.randint(0, 2))], rest=[1500], dtype=rng.choice(dts[:3]), salt=rng.randint(0, 40), delay=False))
    t = mpi_common.run_mpi(ck, progs, ranks=(1, 2, 3, 5) if not ck.thorough else (1, 2, 3, 4, 5, 6, 7))
    ck.conform('T_Mpi', t)
    ck.assumptions += ['Open MPI itself is trusted', 'array inputs are C-contiguous']
