"""Driver (C21): meshes, settings, kernels, extrapolation.  d_contfn.py <out> <scratch>"""
import io, os, sys
import numpy as np
from rec import Rec, arr, ints, THOROUGH, SEED
from dcfg import FakeComm
from dga import analytic_continuation as ac, brillouin_zone as bz, dga_io, plotting
rec = Rec(sys.argv[1])
R = np.random.RandomState(SEED + 210)
scratch = sys.argv[2]
os.makedirs(scratch, exist_ok=True)
sys.stdout = io.StringIO()
PI = np.pi
TYPES = ['lorentzian', 'hyperbolic', 'linear', 'tan']
for t in TYPES:
    for wmin, wmax in ((-5, 5), (0, 6), (-15, 15), (-2, 7), (1, 4)):
        for n in (2, 3, 10, 51, int(R.randint(4, 300))) + ((1001,) if THOROUGH else ()):
            if t == 'lorentzian' and n == 2 and False: continue

            def go(t=t, wmin=wmin, wmax=wmax, n=n):
                w = ac.get_w_mesh(t, wmin, wmax, n, cut=[0.04, 0.1, 0.02][n % 3])
                return dict(w=arr(w, 10000, None)['re'], up=ints(np.sign(np.diff(w))))
            rec.run('mesh', go, key=f'mesh {t} {wmin} {wmax} {n}', kind=t, n=n, wmin=wmin * 10000, wmax=wmax * 10000)


def reject(key, fn, errs):
    def go():
        try: fn()
        except errs: return dict(rej=True)
        return dict(rej=False)
    rec.run('reject', go, key=key)


reject('unknown mesh', lambda: ac.get_w_mesh('tangent', -1, 1, 5), (ValueError,))
reject('lorentzian mesh without cut', lambda: ac.get_w_mesh('lorentzian', -1, 1, 5), (AssertionError, ValueError))
reject('unknown kernel', lambda: ac.MaxEnt(3.0, 'time_fermionic', comm=FakeComm()), (AssertionError, ValueError))
reject('unknown back transformation', lambda: ac.get_backtransform_kernel(np.arange(3.), np.arange(3.), 'time'), (NotImplementedError, ValueError))
reject('unknown Kramers-Kronig', lambda: ac.kkt(np.ones(3), np.arange(3.), 'odd'), (ValueError,))

POOL = dict(cut=[0.03], n_fit=[5, 7], bw=[0.0, 0.2], nwr=[31, 41], wmax=[7, 8], wmin=[-3, 0, 2], err=[0.01, 0.02], alpha_det_method=['historic', 'classic'], optimizer=['scipy_lm'], mesh_type=TYPES, method=['maxent_plain'],
            alpha_start=[1e7], alpha_end=[1e-2], fit_position=[2.0, 3.0], alpha_div=[5.])
st = lambda v: v if isinstance(v, str) else repr(float(v))
for i in range(120 if THOROUGH else 40):
    kind = ['freq_fermionic', 'freq_bosonic'][i % 2]
    pick = lambda q: {k: POOL[k][R.randint(len(POOL[k]))] for k in POOL if R.rand() < q}
    sec, arg = pick(0.35), pick(0.25)
    force = bool(kind == 'freq_bosonic' and R.rand() < 0.2)
    before = dict(ac.MAX_ENT_DEFAULT_SETTINGS)
    eff = dict(before, **sec); eff.update(arg)

    def go():
        s0, a0 = dict(sec), dict(arg)
        m = ac.MaxEnt(3, kind, comm=FakeComm(), me_config=sec if sec or i % 4 else None, **(dict(arg, force_preblur=True) if force else arg))
        n, w = int(m.nwr), m.w
        same = before == ac.MAX_ENT_DEFAULT_SETTINGS and s0 == sec and len(w) == n and abs(w[0] - m.wmin) < 1e-9 and abs(w[-1] - m.wmax) < 1e-9
        return dict(got={k: st(getattr(m, k)) for k in before}, blur=bool(m.use_preblur), same=bool(same))
    rec.run('settings', go, key=f'settings {kind} {sec} {arg} force={force}', kind=kind, sec={k: st(v) for k, v in sec.items()}, arg={k: st(v) for k, v in arg.items()}, **{'def': {k: st(v) for k, v in before.items()}}, force=force, neg=bool(eff['wmin'] < 0))

for i in range(40 if THOROUGH else 12):
    kind = ['freq_fermionic', 'freq_bosonic'][i % 2]
    w = np.sort(R.permutation(np.arange(-3, 4))[:R.randint(3, 8)])
    v = np.sort(R.permutation([-3, -1, 1, 3] if i % 2 == 0 else [0, 1, 2, 3])[:R.randint(1, 5)])
    a = R.randint(-3, 4, len(w))
    L = 2 * 2 * 9 * 5 * 13 * 2

    def go():
        wf, vf = w.astype(float), v.astype(float)
        k = ac.get_backtransform_kernel(wf, vf, kind)
        m = (-PI * a * 1j + R.randint(-5, 6, len(w))) if i % 4 < 2 else -PI * a.astype(float)
        b = ac.transform_from_real_to_imag(m, wf, vf, kind)
        return dict(k=arr(k, L, 1e-5), back=arr(b, 2 * L, 1e-5))
    rec.run('kernel', go, key=f'kernel {kind} w={ints(w)} v={ints(v)}', kind=kind, w=ints(w), v=ints(v), a=ints(a), L=L)
for i in range(40 if THOROUGH else 15):
    kind, names = [('general', ('general', 'fermionic')), ('symmetric', ('symmetric', 'fermionic_phsym')), ('antisymmetric', ('antisymmetric', 'bosonic'))][i % 3]
    w = np.sort(R.permutation(np.arange(-4, 5) if kind == 'general' else np.arange(1, 6))[:R.randint(2, 6)])
    a = R.randint(-4, 5, len(w))
    L = 5040

    def go():
        g = ac.kkt(a.astype(float), w.astype(float), names[R.randint(2)])
        return dict(g=dict(re=arr(g.real, 2 * L, 1e-5)['re'], im=arr(g.imag / PI, 1)['re']))
    rec.run('kkt', go, key=f'kkt {kind} w={ints(w)}', kind=kind, w=ints(w), a=ints(a), L=L)


def poly(order, n_fit, pts):
    """self-energies that are polynomials of the frequency within the fit window, arbitrary beyond it"""
    x = np.arange(1, n_fit + 5).astype(float) * [1.0, 0.5][R.randint(2)]
    coef = [dict(re=ints(R.randint(-5, 6, order + 1)), im=ints(R.randint(-5, 6, order + 1))) for _ in range(pts)]
    for q in coef:
        if R.randint(2):
            q['im'][0] = 0
            if q['im'][1] == 1: q['im'][1] = -1
    s = np.array([sum((q['re'][k] + 1j * q['im'][k]) * x ** k for k in range(order + 1)) for q in coef])
    for q, r in zip(coef, s):
        if q['im'][0] == 0: r.imag[:] = sum(q['im'][k] * x ** k for k in range(order + 1)) if order > 1 else q['im'][1] * x
    s[:, n_fit:] = R.randint(-9, 10, s[:, n_fit:].shape) * (1 + 1j)
    return x, coef, s


for i in range(30 if THOROUGH else 10):
    order = R.randint(1, 4)
    n_fit = order + R.randint(1, 4)
    x, coef, s = poly(order, n_fit, 6)
    ind = [int(j) for j in R.permutation(6)[:R.randint(1, 7)]]

    def go():
        a, b, z = ac.extract_coeff_on_ind(siwk=s, indizes=ind, v=x, n_fit=n_fit, order=order)
        return dict(shift=arr(a, 1000, 1e-3)['re'], gam=arr(b, 1000, 1e-3)['re'], z=arr(z, 1000, None)['re'])
    rec.run('fit', go, key=f'extrapolation order={order} n_fit={n_fit} {ind}', ind=ind, coef=coef)
plotting.plot_siwk_extrap = lambda *a, **k: None
for nk in ((4, 4, 1), (2, 4, 1)) + (((6, 6, 1), (4, 2, 2)) if THOROUGH else ()):
    sy = bz.two_dimensional_square_symmetries() if nk[0] == nk[1] else bz.quasi_one_dimensional_square_symmetries()
    kg = bz.KGrid(nk, symmetries=sy)
    beta, order, n_fit = 2.0, 2, 4
    v = PI / beta * (2 * np.arange(8) + 1)
    nt = int(np.prod(nk))
    base = [dict(re=ints(R.randint(-5, 6, 3)), im=[0] + ints(R.randint(-5, 1, 2))) for _ in range(kg.nk_irr)]
    inv = np.asarray(kg.irrk_inv).ravel()
    coef = [base[inv[k]] for k in range(nt)]
    s = np.array([sum((q['re'][k] + 1j * q['im'][k]) * v ** k for k in range(3)) for q in coef])
    full = np.concatenate([np.conj(s[:, ::-1]), s], axis=1).reshape(nk + (16,))

    def go():
        dga_io.poly_fit(full, beta, kg, n_fit, order, name='fit', output_path=scratch + '/')
        d = np.load(scratch + '/fit.npy', allow_pickle=True).item()
        f = lambda x: arr(np.asarray(x).reshape(-1), 1000, 1e-2)['re']
        return dict(shift=f(d['re_fs']), gam=f(d['im_fs']), z=arr(np.asarray(d['Z']).reshape(-1), 1000, None)['re'])
    rec.run('fit', go, key=f'poly_fit file nk={nk}', ind=list(range(nt)), coef=coef)
rec.close()
