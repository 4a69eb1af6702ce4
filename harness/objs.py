"""Real DGApy objects carrying prescribed values (used by several drivers)."""
import numpy as np
from dga import two_point as twop, matsubara_frequencies as mf


def obj(gk, beta, ek, mu=1, smom0=2, smom1=-3, nc=None):
    """a real GreensFunction object carrying the given values"""
    n = gk.shape[-1] // 2
    nc = nc or max(1, n // 2)
    s = twop.SelfEnergy(np.zeros(ek.shape + (2 * max(n, 8),), dtype=complex), beta, smom0=smom0, smom1=smom1, niv_core=nc)
    g = twop.GreensFunction(s, ek.astype(float), mu=mu, niv_asympt=n - nc)
    g.core = mf.cut_v(gk, nc, axes=-1)
    g.asympt = np.concatenate((gk[..., :n - nc], gk[..., n + nc:]), axis=-1)
    g.full = gk
    g.g_loc = gk.mean(axis=(0, 1, 2))
    return g
