"""Driver (C13): lambda correction.  d_lambda.py <out>"""
import sys
import numpy as np
from rec import Rec, THOROUGH, SEED, arr, ints, BAD
from dga import lambda_correction as lc
rec = Rec(sys.argv[1])
R = np.random.RandomState(SEED + 13)
REAL = [1, 2, 3, 4, 5, 6, 10, 12, 15, 20, 25, 30, 50, 60, 75, 100, 150, 300]
CPL = [3 + 4j, 4 + 3j, 1 + 1j, 2 + 1j, 1 + 2j, 3 + 1j, 6 + 8j, 5 + 5j, 7 + 1j, 10 + 10j]
BIG = lambda z: np.array([v for v in REAL if v >= z])


def chan(nk, nw, complex_, soft):
    """corrected inverse susceptibility numerators: static real, smallest there; dynamic larger, conjugate for -w"""
    z = np.zeros(nk + (2 * nw + 1,), dtype=complex)
    lo = {0: 1, 1: 3, 2: 10}[soft]
    static = R.choice(BIG(lo), nk)
    static.flat[0] = lo
    z[..., nw] = static
    for j in range(1, nw + 1):
        for ix in np.ndindex(*nk):
            cand = list(BIG(static[ix]))
            if complex_: cand += [c for c in CPL if c.real >= static[ix]] * 3
            v = cand[R.randint(len(cand))]
            z[ix + (nw + j,)] = v
            z[ix + (nw - j,)] = np.conj(v)
    return z


STARS = [0, 1, -1, 1024 // 8, -1024 // 4, 512, 2048, -3000, 5000, 17, -1024 // 10]
SC = lambda D: 1000 if D <= 1000 else 1000000 // D
k = 0
for rep in range(8 if THOROUGH else 2):
    for nk in ((1, 1, 1), (2, 1, 1), (3, 2, 1), (2, 1, 2), (2, 2, 3), (4,)):
        for nw in (0, 1, 3):
            for typ in ('spch', 'sp', 'none'):
                for cpl in (False, True):
                    k += 1
                    beta = (1., 2., 12.5, 40.)[R.randint(4)]
                    D = [int(x) for x in R.choice([1, 2, 10, 64, 200, 1000, 100000, 1000000], 2)]     # the pole can be as close as 1e-6 to the solution
                    star = [STARS[R.randint(len(STARS))] / 1024 for _ in range(2)]
                    zs = [chan(nk, nw, cpl, R.randint(3)) for _ in range(2)]
                    new = [d / z for z, d in zip(zs, D)]
                    inv0 = [z / d - s for z, d, s in zip(zs, D, star)]
                    if min(np.abs(x).min() for x in inv0) < 1e-9: continue
                    chi = [1 / x for x in inv0]
                    if not cpl: chi = [np.array(x.real) for x in chi] if k % 2 else chi
                    tgt = [np.mean(np.sum(x, axis=-1)).real for x in new]       # beta * sum rule
                    if typ == 'sp': tgt[1] = tgt[1] + np.mean(np.sum(chi[0], axis=-1)).real - tgt[0]
                    # local susceptibilities with these sums
                    loc = []
                    for t in tgt:
                        l = R.uniform(-1, 1, 2 * nw + 1)
                        l[nw] += t - l.sum()
                        loc.append(l)

                    def go():
                        c0 = [x.copy() for x in chi + loc]
                        d, m, ld, lm = lc.lambda_correction(chi[0], chi[1], beta, loc[0], loc[1], lambda_corr=typ)
                        same = all(np.array_equal(a, b) for a, b in zip(c0, chi + loc))
                        r = {}
                        for nm, o, l, i in (('dens', d, ld, 0), ('magn', m, lm, 1)):
                            r[nm] = dict(z=arr(zs[i]), D=D[i], lam=int(np.rint(np.real(l) * 1e6)) if abs(l) < 2000 else BAD, star=int(np.rint(star[i] * 1e6)),
                                         S=SC(D[i]), out=arr(np.asarray(o, dtype=complex) * 300 * SC(D[i]), 1, None), intact=bool(np.array_equal(o, chi[i])))
                        return dict(same=bool(same), **r)
                    rec.run('corr', go, key=f'{typ} nk{nk} nw{nw} beta{beta} D{D} lambda{star} complex{cpl}', type=typ)

                    def st():
                        return dict(out=int(np.rint(64 * lc.get_lambda_start(1 / si))))
                    si = R.choice([-5, -3, -1, 1, 2, 4, 7, 0.5, -0.25], nk + (2 * nw + 1,)) + (0.5j * R.randint(-1, 2, nk + (2 * nw + 1,)) if cpl else 0)
                    si = np.array(si)
                    si[..., nw] = si[..., nw].real       # static susceptibilities are real
                    rec.run('start', st, key=f'start nk{nk} nw{nw} {k}', inv=arr((1 / (1 / si)).reshape((1,) * (3 - len(nk)) + nk + (2 * nw + 1,)) * 64, 1, 1e-3))

                    def us():
                        x = chi[0].copy()
                        o = lc.use_lambda(x, star[0])
                        return dict(z=arr(zs[0]), D=D[0], star=int(np.rint(star[0] * 1e6)), S=SC(D[0]), out=arr(np.asarray(o, dtype=complex) * 300 * SC(D[0]), 1, None), same=bool(np.array_equal(x, chi[0])))
                    rec.run('use', us, key=f'use nk{nk} nw{nw} {k}')
for t in ('SPCH', 'foo', '', 'spchs', None):
    rec.run('unknown', lambda: dict(r=str(lc.lambda_correction(np.ones((2, 3)), np.ones((2, 3)), 1., np.ones(3), np.ones(3), lambda_corr=t)))  and {}, key=f'unknown {t}')
rec.close()
