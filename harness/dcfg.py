"""Real DgaConfig objects on a stand-in communicator (one process plays every rank in turn)."""
import os
import numpy as np
from dga import config, plotting


class FakeComm:
    def __init__(self, rank=0, size=1): self.rank, self.size = rank, size
    def Get_rank(self): return self.rank
    def Get_size(self): return self.size
    def barrier(self): pass
    def Barrier(self): pass
    def bcast(self, x, root=0): return x
    def Bcast(self, x, root=0): pass
    def scatter(self, x, root=0): return x[self.rank]
    def gather(self, x, root=0): return [x] * self.size if self.rank == root else None
    def allgather(self, x): return [x] * self.size
    def allreduce(self, x, op=None): return x
    def reduce(self, x, op=None, root=0): return x if self.rank == root else None


def quiet_plots():
    """plots are no part of any property; they only cost time"""
    from dga import local_four_point as lfp
    for m in (plotting, lfp):
        for n in dir(m):
            if n.startswith(('plot', 'default_')) and callable(getattr(m, n)): setattr(m, n, lambda *a, **k: None)
    for n in ('chi_checks', 'sigma_loc_checks'): setattr(plotting, n, lambda *a, **k: None)


def make(path, box, nk, symmetries='two_dimensional_square', size=1, hr=(1.0, -0.2, 0.1), folders=True, sysp=None, **sections):
    os.makedirs(path, exist_ok=True)
    c = dict(box_sizes=dict(box), lattice=dict(nk=list(nk), symmetries=symmetries, type='t_tp_tpp', hr_input=list(hr)), dmft_input=dict(input_path=path + '/'), **sections)
    d = config.DgaConfig(c, comm=FakeComm(0, size))
    sp = dict(n=1.0, beta=2.0, u=2.0, mu_dmft=1.0, giw=np.zeros(2, dtype=complex), siw=np.zeros(2, dtype=complex))
    sp.update(sysp or {})
    d.set_system_parameter(sp)
    d.optics.set_frequency_ranges(d)
    if folders:
        d.create_folders()
        d.create_logger()
    return d
