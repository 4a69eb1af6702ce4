"""The partition is model checked for all task and rank counts up to 40 x 16; the code is evaluated for every (tasks, ranks) in a larger table with stand-in communicators and on real communicators of up to 5 (thorough: 8) ranks."""
from . import mpi_common


def run(ck):
    ck.model('MC_Partition', workers=8)
    t = ck.path('part.json')
    ck.driver('d_part.py', t)
    ck.conform('T_Mpi', t)
    ns = range(0, 14) if not ck.thorough else range(0, 40)
    t = mpi_common.run_mpi(ck, [dict(op='partition', n=n) for n in ns], ranks=(1, 2, 3, 5) if not ck.thorough else (1, 2, 3, 4, 5, 6, 7, 8))
    ck.conform('T_Mpi', t)
    ck.assumptions += ['stand-in communicators expose rank and size as mpi4py does', 'real MPI runs use Open MPI with up to 5 (thorough 8) ranks']
