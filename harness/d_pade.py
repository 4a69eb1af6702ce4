"""Driver (C26): Pade continuation.  d_pade.py <out>"""
import io, signal, sys, tempfile
import numpy as np
from rec import Rec, arr, warr, wx, ints, THOROUGH, SEED
rec = Rec(sys.argv[1])
sys.stdout = io.StringIO()
import matplotlib
matplotlib.use('Agg')
from dga import pade_aux as pa
R = np.random.RandomState(SEED + 260)
PI = np.pi
S1 = 1048576
np.seterr(all='ignore')


class Slow(Exception): pass


def hung(*_): raise Slow('no result within 120 s')


run0 = rec.run


def guarded(op, fn, key=None, **kw):
    def go():
        signal.signal(signal.SIGALRM, hung)
        signal.setitimer(signal.ITIMER_REAL, 120)
        try: return fn()
        finally: signal.setitimer(signal.ITIMER_REAL, 0)
    return run0(op, go, key=key, **kw)


rec.run = guarded
poly = lambda c, z: sum(x * z ** i for i, x in enumerate(c))


def poles(r):
    """1/D sum of r poles on the real axis with positive weights: numerator and monic denominator (low order first)"""
    e = (R.permutation(13)[:r] - 6) / 4.
    w = R.randint(1, 4, r) / 4.
    den = np.array([1.0])
    for x in e: den = np.convolve(den, [-x, 1.])
    num = np.zeros(r)
    for i in range(r):
        d = np.array([1.0])
        for j in range(r):
            if j != i: d = np.convolve(d, [-e[j], 1.])
        num += w[i] * d
    return num, den, e


def cseq(c): return warr(np.asarray(c, dtype=complex))


# ---- interpolation: the coefficients and the evaluation of the solver class
for j in range(30 if THOROUGH else 12):
    n = int(R.randint(2, 7))
    x = np.sort(R.permutation(np.arange(1, 25))[:n]) / 8.
    if j % 3 == 2: x = R.permutation(x)
    u = R.uniform(-1, 1, n) + 1j * R.uniform(-1, 1, n)

    def go():
        s = pa.PadeSolver(x, np.array([0.25, 1.0]), u)
        val = np.array([pa.C(1j * v, 1j * x, u, s.a) for v in x])
        return dict(got=warr(val), data=warr(u))
    rec.run('interp', go, key=f'interpolation {list(x)}', n=n)

    def cf():
        a = pa.compute_coefficients(1j * x, u)
        return dict(a=warr(a), rec=warr([pa.g(i, i, 1j * x, u) for i in range(1, n + 1)]), num=warr([pa.A(1j * v, n, 1j * x, u, a) for v in x]), den=warr([pa.B(1j * v, n, 1j * x, u, a) for v in x]), z=warr(1j * x), u=warr(u))
    rec.run('coef', cf, key=f'coefficients {list(x)}', n=n)

# ---- reproduction of rational functions
for j in range(24 if THOROUGH else 9):
    r = [1, 2, 3][j % 3]
    num, den, e = poles(r)
    x = (2 * np.arange(2 * r) + 1) * 0.375
    if (j // 3) % 2: x = R.permutation(x)
    u = poly(num, 1j * x) / poly(den, 1j * x)
    w = np.array([v for v in np.arange(-12, 13) / 8. + 1 / 16 if np.abs(v - e).min() > 0.15])
    st = dict(num=cseq(num), den=cseq(den))

    def go():
        s = pa.PadeSolver(x, w, u)
        o = s.solve()
        f = s.check(np.array([0.5, 1.25, 2.0]))
        nf = np.array([complex(o.numerator_function(v)) for v in w])
        df = np.array([complex(o.denominator_function(v)) for v in w])
        return dict(z=[warr(w), warr(1j * np.array([0.5, 1.25, 2.0])), warr(1j * np.asarray(o.ivcheck)[[60, 150, 249]]), warr(w)], x=[warr(o.g_ret), warr(f), warr(np.asarray(o.check)[[60, 150, 249]]), warr(nf / df)], spec=warr(np.asarray(o.A_opt) * PI), g=warr(o.g_ret),
                    quot=warr(o.numerator / o.denominator), grid=[wx(o.ivcheck[0]), wx(o.ivcheck[-1] / np.max(x)), len(o.ivcheck), len(o.check)])
    rec.run('solver', go, key=f'solver class {num} {den}', **st)
    zo = np.concatenate((w[:4] + 0.125j, 1j * np.array([0.5, 1.0])))
    zi = 1j * x
    rec.run('same', lambda: dict(z=warr(zo), x=warr(pa.padeThiele(zi, u, zo).astype(complex))), key=f'Thiele {num} {den}', **st)
    M = 2 * r + 2 * (j % 2) + (j % 3)
    zm = 1j * (2 * np.arange(M) + 1) * 0.375
    um = poly(num, zm) / poly(den, zm)
    rec.run('same', lambda: dict(z=warr(zo), x=warr(pa.epade(zo, pa.padeMatrix(zm, um, 2 * r)).astype(complex))), key=f'matrix {num} {den} M={M}', **st)
    cf = lambda: dict(got=warr(pa.padeMatrix(zm, um, 2 * r)), want=warr(np.concatenate((num, den[:-1]))))
    rec.run('equal', cf, key=f'matrix coefficients {num} {den} M={M}')
    if r == 1: rec.run('same', lambda: dict(z=warr(zo), x=warr(pa.epade(zo, pa.padeNonlinear(zm, um, 2 * r)).astype(complex))), key=f'nonlinear {num} {den}', **st)
    n2, d2, _ = poles(r)
    f2 = np.stack((um, poly(n2, zm) / poly(d2, zm), 2 * um), axis=1)
    for solver in (0, 1) + ((2,) if r == 1 else ()):
        z_, f_ = (zm, f2) if solver != 1 else (zm[:2 * r], f2[:2 * r])

        def cols():
            o = pa.acPade(z_, f_, 2 * r, zo, solver)
            if o.shape != (len(zo), 3): raise RuntimeError(f'shape {o.shape}')
            return dict(z=[warr(zo)] * 3, x=[warr(o[:, i].astype(complex)) for i in range(3)])
        rec.run('columns', cols, key=f'columns solver={solver} {num} {n2} M={M}', nums=[cseq(num), cseq(n2), cseq(2 * num)], dens=[cseq(den), cseq(d2), cseq(den)])

# evaluation of given coefficients
for j in range(8 if THOROUGH else 4):
    r = int(R.randint(1, 4))
    c = R.randint(-4, 5, 2 * r) / 4. + 1j * R.randint(-4, 5, 2 * r) / 4.
    z = (R.randint(-6, 7, 5) + 1j * R.randint(7, 13, 5)) / 6.
    d = np.append(c[r:], 1)
    if np.abs(poly(d, z)).min() < 0.2: continue
    rec.run('same', lambda: dict(z=warr(z), x=warr(pa.epade(z, c).astype(complex))), key=f'evaluation {c}', num=cseq(c[:r]), den=cseq(d))

# ---- mirror points
for j in range(24 if THOROUGH else 10):
    nz, nc = int(R.randint(4, 12)), int(R.randint(1, 4))
    z = 1j * (2 * np.arange(nz) + 1) + (R.randint(-2, 3, nz) if j % 2 else 0)
    f = (R.randint(-9, 10, (nz, nc)) + 1j * R.randint(-9, 10, (nz, nc)))
    nmin = int(R.randint(-min(4, nz), 4))
    M = int(R.randint(max(1, -nmin), nz - max(nmin, 0) + 1 + max(-nmin, 0)))
    cols = [int(c) for c in R.permutation(nc)[:R.randint(1, nc + 1)]]

    def go():
        zp, fp = pa.pick_points(z, f, nmin, M, cols)
        return dict(zp=arr(zp), fp=arr(fp))
    rec.run('pick', go, key=f'pick {nmin} {M} {cols}', z=arr(z), f=arr(f), nmin=nmin, M=M, cols=cols)


# ---- selection and average
def combos(): return [(nm, M, N) for nm in (-3, -2, -1) for M in range(50, 101, 4) for N in range(40, 81, 4) if N <= M]


for j in range(14 if THOROUGH else 7):
    E = [2, 1, 3, 2, 1, 3, 2][j % 7]
    table, seen = {}, []
    want = combos()
    many = [0.25, 0.02, 0.008, 0, 0, 0.15, 0.25][j % 7]
    sure = {0: [5], 1: [5], 2: [5], 3: [3, 90], 4: [7], 5: [5], 6: [5]}[j % 7]
    zin = 1j * (2 * np.arange(110) + 1)
    fin = np.arange(110)[:, None] * (1 - 1j) + 5
    zout = np.arange(E) + 0.5j
    order = {}
    for i, c in enumerate(want):
        phys = R.rand() < many or i in sure
        if phys and j % 7 == 5: im = -R.randint(10, 14, E) - (26 if R.rand() < 0.2 else 0)          # most of them close together
        elif phys and j % 7 == 6: im = -np.array([20 + 12 * (R.rand() < .5), 0]) - (R.randint(-9, 10) * np.array([1, 0]) if R.rand() < .5 else R.randint(-2, 3) * np.array([4, -4]) + np.array([0, 9]))
        elif phys: im = -R.randint(0, 40, E)
        else:
            im = -R.randint(0, 40, E)
            im[R.randint(E)] = R.randint(1, 5)
        table[c] = R.randint(-40, 40, E) + 1j * im

    def fake(z, f, N, zo, solver):
        M = len(z)
        nm = int(np.rint((z[0].imag - 1) / 2)) if z[0].imag > 0 else int(np.rint((z[0].imag - 1) / 2))
        ok = np.array_equal(f[:, 0], [fin[k, 0] if k >= 0 else np.conj(fin[-k - 1, 0]) for k in range(nm, nm + M)]) and np.array_equal(zo, zout) and f.shape == (M, 1) and solver == 0
        seen.append([nm, M, int(N), 1 if ok else 0])
        return table[(nm, M, int(N))][:, None].astype(complex)

    def go():
        keep = pa.acPade
        pa.acPade = fake
        try: mean, fs, masks = pa.pade(zin, fin, zout)
        finally: pa.acPade = keep
        n = int(np.sum(masks[:, 0]))
        return dict(seen=list(seen), fs=arr(fs[:, :, 0]), mask=[bool(x) for x in masks[:, 0]], total=arr(mean[:, 0] * n), shapes=[list(np.shape(mean)), list(np.shape(fs)), list(np.shape(masks))])
    rec.run('average', go, key=f'average {j} E={E}', table=[dict(k=list(c), re=ints(table[c].real), im=ints(table[c].imag)) for c in want], E=E)


def none():
    keep = pa.acPade
    pa.acPade = lambda z, f, N, zo, s: np.ones((len(zo), 1)) * (1 + 1j)
    try: pa.pade(1j * (2 * np.arange(110) + 1), np.ones((110, 1)) + 0j, np.arange(2) + .5j)
    except SystemExit: return dict(rej=True)
    finally: pa.acPade = keep
    return dict(rej=False)


rec.run('reject', none, key='no physical continuation')


def reject(key, fn):
    def go():
        try: fn()
        except (SystemExit, ValueError): return dict(rej=True)
        return dict(rej=False)
    rec.run('reject', go, key=key)


z4, f4 = 1j * np.array([1., 3., 5., 7.]), np.array([[1.], [2.], [4.], [3.]]) + 0j
reject('odd number of coefficients', lambda: pa.acPade(z4, f4, 3, z4, 0))
reject('Thiele with fewer coefficients than points', lambda: pa.acPade(z4, f4, 2, z4, 1))
reject('unknown solver', lambda: pa.acPade(z4, f4, 4, z4, 7))

# ---- input files
for j in range(4):
    n, nw, delta = int(R.randint(2, 6)), int(R.randint(2, 6)), [0.5, 0.25][j % 2]
    d, e = R.randint(-9, 10, (n, 4)) / 4., R.randint(-9, 10, (nw, 3)) / 4.

    def go():
        with tempfile.TemporaryDirectory() as t:
            a, b = (t + '/pade.in', t + '/exact.dat') if j < 2 else (t + '/other.in', t + '/real.dat')
            if j >= 2:
                np.savetxt(t + '/pade.in', d[::-1] + 1), np.savetxt(t + '/exact.dat', e[::-1] + 1)
            np.savetxt(a, d), np.savetxt(b, e)
            kw = {} if j < 2 else dict(inputfile='other.in', realaxisfile='real.dat')
            zin, fin, w, zout, ex = pa.load_and_prepare_input_data(t + '/', delta=delta, **kw)
        return dict(zin=arr(4 * zin), fin=arr(4 * fin), w=arr(4 * w), zout=arr(4 * zout), ex=arr(4 * ex))
    rec.run('load', go, key=f'input {d.tolist()} {e.tolist()} delta={delta}', d=arr(4 * d), e=arr(4 * e), delta=int(4 * delta))
rec.close()
