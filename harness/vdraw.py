"""Random, well-conditioned two-particle quantities (every derived quantity is O(1)) shared by the vertex drivers."""
import numpy as np
from rec import SEED, wx as fx
from objs import obj
from dga import local_four_point as lfp, bubble as bub
rng = np.random.RandomState(SEED)
SG = dict(dens=1, magn=-1)
LIM = 3.0


def ph(shape, lo=0.8, hi=1.25):
    return rng.uniform(lo, hi, shape) * np.exp(2j * np.pi * rng.uniform(0, 1, shape))


def inv(x0, g): return np.array([np.linalg.inv(np.diag(1 / a) + b) for a, b in zip(x0, g)])


def draw(nw, n, m, beta, ur, amp=0.3, x0=None, tries=2000):
    """random irreducible vertex and bubble for which every derived quantity is O(1)"""
    for _ in range(tries):
        xb = ph((nw, n + 2 * m)) if x0 is None else x0
        g = ph((nw, n, n), 0.3 * amp, amp)
        ub = ur / beta ** 2
        xc = xb[:, m:m + n]
        ext = np.full((nw, n + 2 * m, n + 2 * m), ub, dtype=complex)
        ext[:, m:m + n, m:m + n] = g
        X, A, E, EA = inv(xc, g), inv(xc, g - ub), inv(xb, ext), inv(xb, ext - ub)
        Xc = E[:, m:m + n, m:m + n]
        xs = A.sum((1, 2)) + xb.sum(1) - xc.sum(1)
        vr = [np.abs(A.sum(a) / xc).max() for a in (1, 2)]
        if max(np.abs(q).max() for q in (X, A, E, EA)) < 2.2 and max(vr) < LIM and np.abs(X.sum((1, 2))).max() < 2 * LIM and np.abs(A.sum((1, 2))).max() < 2 * LIM \
                and np.abs(1 + ub * xs).min() > 0.5 and max(np.abs(xb.sum(1)).max(), np.abs(xc.sum(1)).max()) < 2 * LIM and np.abs(xs / (1 + ub * xs)).max() < 2 * LIM \
                and np.abs(1 / xc).max() < 2.5 and np.abs(np.linalg.inv(E[:, m:m + n, m:m + n])).max() < 6:
            return g, xb, X, A, E, EA
    raise RuntimeError('no draw')


WN = [(list(range(-1, 2)), True), ([0], False), ([2, -1, 0], False), ([3], False), ([0], True)]


def mk(ch, mat, beta, u, wn, full):
    return lfp.LocalFourPoint(ch, mat, beta, u, wn=None if full else np.array(wn), is_full_w=full)


def meta(o): return [fx(o.beta), fx(o.u), int(bool(o.is_full_w))]


def bubblegen(ch, wn, full, n, m, beta, u):
    """a bubble generator on a random local Green's function and a matching vertex"""
    niv = n // 2 + m
    nw = len(wn)
    for _ in range(20000):
        N = niv + 4
        g = ph((N,), 0.6, 0.85)
        g = np.concatenate((np.conj(g[::-1]), g))
        x0 = np.array([[-beta * g[v + N] * g[v - w + N] for v in range(-niv, niv)] for w in wn])
        try: r = draw(nw, n, m, beta, SG[ch] * u, x0=x0, tries=8)
        except RuntimeError: continue
        gen = bub.BubbleGenerator(np.array(wn), obj(g[None, None, None, :], float(beta), np.zeros((1, 1, 1)), mu=0.1, smom0=0.3, smom1=-0.2), is_full_wn=full)
        ub = SG[ch] * u / beta ** 2
        xc = x0[:, m:m + n]
        xs = r[3].sum((1, 2)) + x0.sum(1) - xc.sum(1)
        chi = xs / (1 + ub * xs)
        tail = gen.get_asymptotic_correction(niv + m) * beta ** 2
        vr = [np.abs(r[3].sum(a) / xc).max(-1) * np.abs((1 - ub * chi) / (1 - ub * (chi + tail))) for a in (1, 2)]
        if np.abs(1 - ub * (chi + tail)).min() < 0.5 or np.max(vr) > 6 or np.abs(chi + tail).max() > 6 or np.abs(tail).max() > 4: continue
        return (gen, g, x0) + r
    raise RuntimeError('no bubble')


def shelldraw(sh, n, x0, u, ur, sg, beta):
    while True:
        lam, xs, cc = ph(sh + (n,), 0.3, 0.8), ph(sh, 0.05, 0.15), ph(sh, 0.3, 0.8)
        lt = (lam - u * xs[..., None]) / (1 + ur * xs[..., None])
        shl = -sg * u * xs ** 2 + xs * (1 - 2 * u / beta ** 2 * ((lt + sg) * x0).sum(-1))
        ct = (cc + shl) / (1 - (u * xs) ** 2)
        v = (1 + sg * lt) / (1 - ur * ct[..., None])
        if max(np.abs(q).max() for q in (lt, shl, ct, v)) < 5 and np.abs(1 - ur * ct).min() > 0.3: return lam, xs, cc
