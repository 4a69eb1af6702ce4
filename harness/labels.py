"""Labelled arrays: the entry at a frequency tuple is an injective code of the tuple (mirrors Matsubara.tla)."""
import numpy as np


def vax(n): return list(range(-n, n))
def wax(n): return list(range(-n, n + 1))
def whalf(n): return list(range(0, n + 1))
def vpos(n): return list(range(0, n))
def shell(core, sh): return list(range(-core - sh, -core)) + list(range(core, core + sh))


def code(grids):
    c = np.zeros(grids[0].shape, dtype=np.int64) if grids else np.zeros((), dtype=np.int64)
    for g in grids: c = c * 64 + (g + 32)
    return c + 1


def lab(axes):
    g = np.meshgrid(*[np.array(a, dtype=np.int64) for a in axes], indexing='ij')
    c = code(g)
    return c + 1j * (c + 1)


def symlab(kinds, axes):
    g = np.meshgrid(*[np.array(a, dtype=np.int64) for a in axes], indexing='ij')
    pos = np.full(g[0].shape, 2)
    for k, x in zip(kinds, g):
        dec = {'v': np.where(x >= 0, 1, 0), 'w': np.where(x > 0, 1, np.where(x < 0, 0, 2)), 'o': np.full(x.shape, 2)}[k]
        pos = np.where(pos == 2, dec, pos)
    m = [(-x - 1 if k == 'v' else -x if k == 'w' else x) for k, x in zip(kinds, g)]
    c, cm = code(g), code(m)
    return np.where(pos != 0, c + 1j * (c + 1), cm - 1j * (cm + 1))
