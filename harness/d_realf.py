"""Driver (C27): post-processing of continued data.  d_realf.py <out> <scratch>"""
import io, os, sys
import numpy as np
from types import SimpleNamespace as NS
from rec import Rec, arr, warr, wx, ints, THOROUGH, SEED
rec = Rec(sys.argv[1]); scratch = sys.argv[2]
sys.stdout = io.StringIO()
import warnings; warnings.simplefilter('ignore')
import matplotlib; matplotlib.use('Agg')
import matplotlib.pyplot as plt
from ruamel.yaml import YAML
from dga import brillouin_zone as bz, plotting, two_point as twop, config
from postproc import real_frequency_two_point as rtp, util
R = np.random.RandomState(SEED + 270)
wl = lambda a: [wx(x) for x in np.ravel(a)]
pts = lambda a: [[int(x) for x in p] for p in a]


def field(n, m, kind):
    if kind == 0: f = R.randint(1, 9, (n, m)) * R.choice([-1, 1], (n, m))
    elif kind == 1:
        x, y = np.meshgrid(np.arange(n), np.arange(m), indexing='ij')
        f = np.rint(40 * (np.cos(2 * np.pi * x / n) + np.cos(2 * np.pi * y / m)) - R.randint(-30, 30)).astype(int); f[f == 0] = 1
    else: f = R.randint(1, 9, (n, m)) * R.choice([-1, 1])
    return f


for j in range(40 if THOROUGH else 16):
    n, m = int(R.randint(2, 8)), int(R.randint(2, 8))
    if j % 4 == 0: n = m
    f = field(n, m, [0, 1, 1, 0, 2][j % 5])
    fl = [[int(x) for x in r] for r in f]
    rec.run('zeros', lambda: dict(out=pts(bz.find_zeros(f * (1 if j % 2 else 1 + 0j) + (0 if j % 2 else 1j * R.randint(-3, 4, (n, m)))))), key=f'zeros {fl}', f=fl, n=n, m=m)

    def cont():
        x, y = plotting.get_zero_contour(f)
        return dict(out=[[int(b), int(a)] for a, b in zip(x, y)])
    rec.run('contour', cont, key=f'contour {fl}', f=fl, n=n, m=m)
for n, m in ((1, 4), (3, 1), (1, 1)):
    f = field(n, m, 0)
    rec.run('zeros', lambda: dict(out=pts(bz.find_zeros(f))), key=f'zeros of a chain {n}x{m}', f=[[int(1)] * m] * n, n=n, m=m)
for n in (1, 2, 3, 4, 5, 8):
    def go():
        o = bz.get_bz_masks(n)
        return dict(out=[pts(np.argwhere(x == 0)) for x in o], shape=[list(x.shape) for x in o])
    rec.run('masks', go, key=f'masks {n}', n=n)

# ---- Fermi surface of a slice of a Green's function
for j in range(16 if THOROUGH else 6):
    nk = [(4, 4, 2), (5, 3, 2), (4, 6, 3)][j % 3]
    dim = j % 3
    shift = bool((j // 3) % 2)
    if shift: nk, dim = nk[:2] + (1,), 2                # the shift is one of the plane
    grid = bz.KGrid(nk=nk, symmetries=[])
    w = np.arange(-4, 5) / 4.
    f = R.randint(1, 9, nk) * R.choice([-1, 1], nk)
    # the real part of the Green's function at w_val has the sign of -ek - s + w ...: choose ek so that 1/(w + mu - ek) has the wanted value
    wv = w[R.randint(len(w))]
    # imaginary part much smaller than the denominator
    ek = wv + 0.5 - 8. / f
    gf = twop.RealFrequencyGF(w, np.zeros(nk + (len(w),)) - 1e-9j, ek, mu=0.5)
    val = [grid.kx, grid.ky, grid.kz][dim]
    iv = int(R.randint(nk[dim]))

    def go():
        x, y = gf.get_fs_surface_slice_indices(grid, k_slice_dim=dim, k_slice_val=val[iv] + .05, w_val=wv + .05, pi_shift=shift)
        return dict(out=[[int(b), int(a)] for a, b in zip(x, y)])
    f3 = np.roll(f, [s // 2 for s in nk], axis=(0, 1, 2)) if shift else f
    sl = np.take(f3, iv, axis=dim)
    rec.run('contour', go, key=f'slice {nk} dim={dim} at {iv} w={wv} shift={shift} {f.tolist()}', f=[[int(x) for x in r] for r in sl], n=sl.shape[0], m=sl.shape[1])

# ---- crossings of a path with the Fermi surface
for j in range(30 if THOROUGH else 12):
    seg = [int(x) for x in R.randint(1, 6, R.randint(1, 5))]
    cind = [0] + [int(x) for x in np.cumsum(seg)]
    p = R.randint(-9, 10, (sum(seg), 2))
    fs = R.randint(-9, 10, (R.randint(1, 6), 2))
    kp = NS(nk_seg=np.array(seg), cind=np.array(cind), k_val=[p[:, 0].astype(float), p[:, 1].astype(float), 0 * p[:, 0]])
    rec.run('crossing', lambda: dict(out=ints(util.find_fermi_crossing(fs.astype(float), kp))), key=f'crossing {seg} {p.tolist()} {fs.tolist()}', path=pts(p), fs=pts(fs), seg=seg, cind=cind)
for j in range(6 if THOROUGH else 3):
    nk = (8, 8, 1)
    path = ['Gamma-X-M-Gamma', 'Gamma-X', 'Gamma-M-X'][j % 3]
    kp = bz.KPath(nk, path, path_deliminator='-')
    fs = R.randint(0, 8, (5, 2))

    def go():
        o = util.find_fermi_crossing(fs * 2 * np.pi / 8, kp)
        return dict(out=ints(o))
    p = np.rint(np.array([kp.k_val[0], kp.k_val[1]]).T * 8 / 2 / np.pi).astype(int)
    rec.run('crossing', go, key=f'crossing {path} {fs.tolist()}', path=pts(p), fs=pts(fs), seg=[int(x) for x in kp.nk_seg], cind=[int(x) for x in kp.cind])

# ---- Green's function, filling, chemical potential
rec.run('dqp', lambda: dict(out=ints(rtp.get_dqp_bw(np.arange(-3, 4)[:, None] * np.ones((1, 2))))), key='indicator', x=[x for x in range(-3, 4) for _ in range(2)])


def band(nk, tp=-.2):
    kx, ky = np.meshgrid(2 * np.pi * np.arange(nk[0]) / nk[0], 2 * np.pi * np.arange(nk[1]) / nk[1], indexing='ij')
    e = -2 * (np.cos(kx) + np.cos(ky)) / 2 - 4 * tp * np.cos(kx) * np.cos(ky) / 2
    return np.repeat(np.rint(e * 4096)[:, :, None] / 4096, nk[2], axis=2)


def selfen(w, nk, lorentz=True):
    a, b = R.uniform(.1, .4), R.uniform(-1, 1)
    s = a / (w - b + .7j) - 1j * R.uniform(.25, .5)
    return s[None, None, None] * (1 + .2 * R.rand(*nk))[..., None]


def flat(a, nw): return warr(np.asarray(a, dtype=complex).reshape(-1, nw))


for j in range(10 if THOROUGH else 4):
    nk = [(3, 2, 1), (4, 4, 1), (2, 2, 2), (1, 1, 1)][j % 4]
    w = np.linspace(-6, 6, 41 + j % 2) if j % 3 else np.sort(np.rint(R.uniform(-6, 6, 30) * 4096)) / 4096
    ek, s, mu = band(nk), selfen(w, nk), float(np.rint(R.uniform(-1, 1) * 4096) / 4096)
    st = dict(w=wl(w), ek=wl(ek), s=flat(s, len(w)), mu=wx(mu))
    g = 1 / (w + mu - ek[..., None] - s)
    rec.run('giwk', lambda: dict(g=flat(rtp.get_giwk(mu, s, w, ek), len(w))), key=f'giwk {nk} {j}', **st)
    rec.run('filling', lambda: dict(fill=wx(rtp.get_filling(w, g))), key=f'filling {nk} {j}', g=flat(g, len(w)), w=wl(w))
for j in range(16 if THOROUGH else 6):
    nk = [(4, 4, 1), (2, 3, 2)][j % 2]
    w = np.linspace(-10, 10, 81)
    ek, s = band(nk), selfen(w, nk)
    n, mu0 = float(R.uniform(.5, 1.3)), float(R.uniform(-.8, .8))

    def go():
        mu = np.squeeze(rtp.adjust_mu(mu0, n, s, w, ek))
        return dict(mu=wx(mu), g=flat(rtp.get_giwk(mu, s, w, ek), len(w)))
    rec.run('mu', go, key=f'chemical potential {nk} n={n} mu0={mu0} {j}', w=wl(w), ek=wl(ek), s=flat(s, len(w)), n=wx(n))

# ---- the program swk_analysis
for j in range(2 if THOROUGH else 1):
    from postproc import plot_siwk_cont as psc
    nk = (12, 12, 1)
    d = f'{scratch}/sa{j}/'
    os.makedirs(d + 'MaxEntSiwk')
    w = np.linspace(-10, 10, 701 + 50 * j)
    c = dict(box_sizes=dict(niw_core=3, niv_core=3, niv_asympt=0), lattice=dict(nk=list(nk), nq=list(nk), symmetries='two_dimensional_square', type='t_tp_tpp', hr_input=[1., -.25, .125]), dmft_input=dict(input_path='./'))
    with open(d + 'dga_config.yaml', 'w') as f: YAML().dump(c, f)
    kx = 2 * np.pi * np.arange(nk[0]) / nk[0]
    ek = (-2 * (np.cos(kx)[:, None] + np.cos(kx)[None]) + np.cos(kx)[:, None] * np.cos(kx)[None] - .25 * (np.cos(2 * kx)[:, None] + np.cos(2 * kx)[None]))[..., None]
    s = selfen(w, nk)
    far = np.abs(w) > 9
    s[..., far] = s[..., far].real - 1j * R.uniform(0, .06, nk + (int(far.sum()),)) * R.choice([-1, 1], nk + (int(far.sum()),))
    s[..., far] = np.where(s[..., far].imag > .04, s[..., far].real - 1j * .02, s[..., far])
    n = float(R.uniform(.7, 1.1))
    np.save(d + 'MaxEntSiwk/swk_dga_cont_fbz.npy', s); np.save(d + 'MaxEntSiwk/w.npy', w)
    np.save(d + 'dmft_input.npy', dict(n=n, beta=10.), allow_pickle=True)
    np.savetxt(d + 'mu.txt', [[float(R.uniform(-.5, .5)), .3]], header='mu_dga, mu_dmft', fmt='%1.6f')
    pick = np.array(sorted({int(x) for x in R.permutation(nk[0] * nk[1])[:8]} | {int(ek.argmax()), int(ek.argmin())}))
    flatk = lambda a: np.asarray(a).reshape(nk[0] * nk[1], -1)

    def go():
        keep = plt.savefig
        pics = []
        plt.savefig = lambda f, *a, **k: pics.append(str(f))
        try: psc.main(d)
        finally: plt.savefig = keep; plt.close('all')
        g = np.load(d + 'MaxEntSiwk/gwk_cont.npy')
        mu, mu0 = np.loadtxt(d + 'MaxEntSiwk/mu_dga.txt')
        g0 = 1 / (w + mu0 - ek[..., None] + .04j)
        return dict(g=warr(flatk(g)[pick]), mu=wx(mu), mean=wl(np.mean(g.imag, axis=(0, 1, 2))), mean0=wl(np.mean(g0.imag, axis=(0, 1, 2))), files=[sorted(os.listdir(d + 'MaxEntSiwk')) == ['gwk_cont.npy', 'mu_dga.txt', 'swk_dga_cont_fbz.npy', 'w.npy'] and bool(np.array_equal(np.load(d + 'MaxEntSiwk/swk_dga_cont_fbz.npy'), s)),
                    [os.path.basename(x) for x in pics] == ['gwk_cont_analysis.png']])
    rec.run('main', go, key=f'swk_analysis {j}', w=wl(w), ek=wl(flatk(ek)[pick]), s=warr(flatk(s)[pick]), n=wx(n))
rec.close()
