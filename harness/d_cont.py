"""Driver (C21): continuation of lists of points on real communicators (under mpirun).  d_cont.py <out> <cases> <scratch>"""
import io, json, os, sys
import numpy as np
from rec import Rec, arr, ints, THOROUGH, SEED
from mpi4py import MPI
from ana_cont import continuation as cont
from dga import analytic_continuation as ac, mpi_aux, dga_max_ent as dme, plotting, high_level_plotting as hlp, brillouin_zone as bz, matsubara_frequencies as mf, two_point as twop
from ruamel.yaml import YAML
comm = MPI.COMM_WORLD
R = np.random.RandomState(SEED + 21)
rec = Rec(sys.argv[1]) if comm.rank == 0 else None
scratch = sys.argv[3]
real_out, sys.stdout = sys.stdout, io.StringIO()
ERRORS = [ValueError, np.linalg.LinAlgError, RuntimeError, ArithmeticError, IndexError]


def put(op, key, params, fn):
    """collective: fn runs on every rank; the record of rank 0 carries what went wrong on any rank"""
    if rec: open(sys.argv[1] + '.at', 'w').write(json.dumps(dict(op=op, key=key)))
    exc, r = '', {}
    try: r = fn()
    except Exception as e:
        exc = type(e).__name__ + ': ' + str(e)[:150].replace('"', "'").replace('\\', '/')
        if comm.size > 1:      # the other ranks may wait for this one for ever
            open(f'{sys.argv[1]}.exc', 'w').write(exc)
            comm.Abort(3)
    if rec: rec.emit(op=op, key=key, exc=exc, **params, **r)


PI = np.pi
init0, solve0 = cont.AnalyticContinuationProblem.__init__, cont.AnalyticContinuationProblem.solve


class Sol: pass


def stand_in(calls, fail, beta, err, w):
    def init(self, im_axis=None, re_axis=None, im_data=None, kernel_mode=None, beta=None): self.x = (np.array(im_axis), np.array(re_axis), np.array(im_data), kernel_mode, beta)

    def solve(self, method='', *a, stdev=None, model=None, **kw):
        ax, re, d, k, b = self.x
        calls.append(dict(freq=ints(np.rint(ax * b / PI)) if np.allclose(ax * b / PI, np.rint(ax * b / PI), atol=1e-6) else [-1], re=ints(np.rint(d.real)), im=ints(np.rint(np.imag(d))), kind=k, beta=int(round(b)), err=ints(np.rint(np.asarray(stdev) * 10000)), mesh=bool(np.array_equal(re, w))))
        i = int(round(d[0].real)) // 100
        if i in fail: raise ERRORS[i % len(ERRORS)]('the solver gives up')
        s = Sol()
        s.A_opt, s.chi2, s.backtransform, s.norm = np.full(len(re), float(i)), 0.0, None, 1.0
        return s, [s]
    cont.AnalyticContinuationProblem.__init__, cont.AnalyticContinuationProblem.solve = init, solve


def restore(): cont.AnalyticContinuationProblem.__init__, cont.AnalyticContinuationProblem.solve = init0, solve0


def listing(b, nfit, nwr):
    n, kind, niv, fail = b['n'], b['kind'], b['niv'], b['fail']
    beta, err = 5.0, 0.0013
    L = 2 * niv + (kind == 'freq_bosonic')
    mat = np.array([[100 * i + m - 1j * m for m in range(L)] for i in range(1, n + 1)])
    if kind == 'freq_bosonic': mat = mat.real.astype([float, complex][n % 2])

    def go():
        me = ac.MaxEnt(beta, kind, comm=comm, me_config=dict(nwr=nwr, wmax=4, wmin=-4), n_fit=nfit, err=err, mesh_type='linear')
        calls = []
        dist = mpi_aux.MpiDistributor(ntasks=n, comm=comm, name='X')
        stand_in(calls, fail, beta, err, me.w)
        try: res = ac.mpi_ana_cont(mat if comm.rank == 0 else None, me, dist, 'x')
        finally: restore()
        every = comm.gather(calls, root=0)
        if comm.rank: return {}
        res = np.asarray(res)
        f = kind == 'freq_fermionic'
        return dict(sh=[int(x) for x in res.shape], type='complex' if np.iscomplexobj(res) else 'real', id=arr(-res.imag / PI if f else np.real(res) * 2 / PI, 1000)['re'], re=arr(res.real, 1000, None)['re'], calls=[c for r in every for c in r])
    put('list', f'p={comm.size} {b} n_fit={nfit}', dict(n=n, p=comm.size, kind=kind, niv=niv, nfit=nfit, nwr=nwr, fail=fail, beta=5, err=13), go)


def alone(kind, beta, row, nfit, w, **o):
    """one point continued directly with the solver package: its positive frequencies"""
    h = len(row) // 2
    nf = min(nfit, h)
    d = row[h:h + nf + (kind == 'freq_bosonic')]
    ax = (PI / beta) * (2 * np.arange(len(d)) + (1 if kind == 'freq_fermionic' else 0))
    model = np.ones_like(w)
    model *= (1.0 if kind == 'freq_fermionic' else row[0].real) / np.trapz(model, w)
    s, _ = cont.AnalyticContinuationProblem(im_axis=ax, re_axis=w, im_data=d, kernel_mode=kind, beta=beta).solve(
        method='maxent_svd', model=model, stdev=np.ones(len(d)) * 1e-3, alpha_determination='chi2kink', optimizer='newton', preblur=o.get('bw', 0.0) != 0, blur_width=o.get('bw', 0.0), verbose=False, alpha_start=1e9, alpha_end=1e-3, alpha_div=10., fit_position=2.5)
    if kind == 'freq_bosonic': return s.A_opt * PI / 2
    return cont.GreensFunction(spectrum=s.A_opt, wgrid=w, kind='fermionic').kkt()


def real(kind, n, nfit, niv, bw):
    beta = 4.0
    f = kind == 'freq_fermionic'
    fr = mf.vn(beta, niv) if f else mf.wn(beta, niv)
    rows = [1 / (1j * fr - x) for x in np.linspace(-1, 1.5, n)] if f else [1 / (1 + x + fr ** 2) for x in np.linspace(0, 3, n)]
    order = [int(x) for x in R.randint(1, n + 1, n + 2)]
    bad = int(R.randint(1, n + 1))
    if f: rows[bad - 1] = rows[bad - 1] * np.nan

    def go():
        me = ac.MaxEnt(beta, kind, comm=comm, me_config=dict(nwr=15, wmax=5, wmin=-5 if f else 0), n_fit=nfit, bw=bw)
        dist = mpi_aux.MpiDistributor(ntasks=len(order), comm=comm, name='X')
        mat = np.array([rows[i - 1] for i in order])
        res = ac.mpi_ana_cont(mat if comm.rank == 0 else None, me, dist, 'x')
        if comm.rank: return {}
        al = [np.zeros(15, dtype=complex) if f and i == bad - 1 else alone(kind, beta, r, nfit, me.w, bw=bw if f else 0.0) for i, r in enumerate(rows)]
        return dict(got=arr(res, 10000, None), alone=arr(np.array(al), 10000, None))
    put('real', f'solver p={comm.size} {kind} n={n} bw={bw}', dict(order=order, nwr=15), go)


for m in (plotting, hlp):
    for k in dir(m):
        if k.startswith('plot'): setattr(m, k, lambda *a, **k: None)


def near(key, **pairs):
    """stored results against the ones of the documented objects (decided by their own properties)"""
    a = {k: np.ravel(np.asarray(x, dtype=complex)) for k, (x, _) in pairs.items()}
    b = {k: np.ravel(np.asarray(y, dtype=complex)) for k, (_, y) in pairs.items()}
    sc = lambda x, m: arr(np.where(np.isfinite(x), x, 1e9) / m * 1e8, 1, None) if np.all(np.abs(x) < 20 * m) else arr(np.full(x.shape, 2e9), 1, None)
    m = {k: max(np.abs(b[k]).max(initial=0), 1e-9) for k in b}
    rec.emit(op='post', key=key, names=sorted(a), got=[sc(a[k], m[k]) for k in sorted(a)], want=[sc(b[k], m[k]) for k in sorted(a)])


def derived(d, swk, w, kg, n, beta, key):
    from dga import wannier, optics
    hr = wannier.WannierHr(*wannier.wannier_one_band_2d_t_tp_tpp(1, -.2, .1))
    gf = twop.RealFrequencyGF(w, swk, hr.get_ek(kg), n=n, deltino=0.04)
    sg, wb = optics.vec_get_sigma_bub_realf(gf, hr, kg, beta, w[-1] / 3)
    near(key + ' derived from the self-energy', green=(np.load(d + 'gwk_dga_cont_fbz.npy'), gf.gwk()), sigma=(np.load(d + 'sigma_bub.npy'), sg), frequencies=(np.load(d + 'w_bub.npy'), wb))


def local(p, sig, n, beta, settings):
    """continuation of the local DMFT and DGA Green's functions for a range of blur widths"""
    from dga import wannier
    ek = wannier.WannierHr(*wannier.wannier_one_band_2d_t_tp_tpp(1, -.2, .1)).get_ek(bz.KGrid((4, 4, 1)))
    dm = np.load(p + 'dmft_input.npy', allow_pickle=True).item()
    g = dict(dmft=twop.GreensFunction(twop.SelfEnergy(sigma=dm['siw'][None, None, None, :], beta=beta), ek, mu=dm['mu_dmft'], niv_asympt=12).g_loc,
             dga=twop.GreensFunction(sig, ek, n=n, niv_asympt=12).g_loc)
    d, nf = p + 'MaxEnt/', settings['n_fit']
    w = ac.get_w_mesh('tan', -settings['wmax'], settings['wmax'], settings['nwr'])
    bws = [0.001, 0.01, 0.05, 0.1, 0.15, 0.2, 0.25, 0.35, 0.5, 0.75, 1]
    for k in g:
        have = sorted(f for f in os.listdir(d) if f.startswith(k + '_cont_bw'))
        near(f'program p={comm.size} local {k}', number=([len(have)], [len(bws)]), frequencies=(np.load(d + 'w.npy'), w),
             **{f'bw{b}': (np.load(d + f'{k}_cont_bw{float(b)}.npy'), ac.max_ent(g[k], w, beta, n_fit=nf, alpha_det_method='chi2kink', err=settings.get('err', 1e-3), use_preblur=True, bw=b)) for b in bws})


def program(tag, nk, nq, fails, me_settings, sections):
    p = os.path.join(scratch, tag) + '/'
    beta, n, niv = 4.0, 1.0, 24
    sym = bz.two_dimensional_square_symmetries()
    kg, qg = bz.KGrid(nk, symmetries=sym), bz.KGrid(nq, symmetries=sym)
    if comm.rank == 0:
        os.makedirs(p)
        with open(p + 'dga_config.yaml', 'w') as h:
            YAML().dump(dict(box_sizes=dict(niw_core=3, niv_core=3, niv_shell=6), lattice=dict(type='t_tp_tpp', hr_input=[1, -.2, .1], nk=list(nk), nq=list(nq), symmetries='two_dimensional_square'),
                             max_ent=dict(me_settings, **sections)), h)
        vn, wn = mf.vn(beta, niv), mf.wn(beta, 5)
        band = lambda g: (np.cos(g.kx)[:, None, None] + np.cos(g.ky)[None, :, None] + 0 * g.kz)[..., None]
        np.save(p + 'dmft_input.npy', dict(giw=1 / (1j * vn), siw=1 / (1j * vn) + 1, n=n, beta=beta, u=2., mu_dmft=1.), allow_pickle=True)
        np.save(p + 'siwk_dga.npy', 1 + 1 / (1j * vn - 0.3 * band(kg)))
        np.save(p + 'chi_dens_lam.npy', 1 / (4 + band(qg) + wn ** 2))
        np.save(p + 'chi_magn_lam.npy', 1 / (3.37 + band(qg) + wn ** 2))
    comm.barrier()
    calls = {}

    def init(self, im_axis, re_axis, im_data, kernel_mode, beta):
        init0(self, im_axis=im_axis, re_axis=re_axis, im_data=im_data, kernel_mode=kernel_mode, beta=beta)
        self.x = np.array(im_data)

    def solve(self, *a, **k):
        for name, rows in bad.items():
            for r in rows:
                if len(r) == len(self.x) and np.allclose(r, self.x, atol=1e-9): raise ValueError('the solver gives up')
        return solve0(self, *a, **k)

    def go():
        # expected data per momentum
        sig = twop.SelfEnergy(sigma=np.load(p + 'siwk_dga.npy'), beta=beta)
        dat, kinds, grids, shift = {}, {}, {}, {}
        nf = {s: sections[s].get('n_fit', me_settings['n_fit']) for s in sections}
        if 's_dga' in sections: dat['s_dga'], kinds['s_dga'], grids['s_dga'] = sig.get_siw(nf['s_dga']) - sig.smom0, 'freq_fermionic', kg
        if 'g_dga' in sections:
            from dga import wannier
            ek = wannier.WannierHr(*wannier.wannier_one_band_2d_t_tp_tpp(1, -.2, .1)).get_ek(kg)
            dat['g_dga'], kinds['g_dga'], grids['g_dga'] = twop.GreensFunction(sig, ek, n=n, niv_asympt=9).g_full(), 'freq_fermionic', kg
        for s, f in (('chi_d', 'chi_dens_lam'), ('chi_m', 'chi_magn_lam')):
            if s in sections: dat[s], kinds[s], grids[s] = np.load(p + f + '.npy'), 'freq_bosonic', qg
        global bad
        bad = {}
        flat = {}
        for s in dat:
            flat[s] = dat[s].reshape(-1, dat[s].shape[-1])
            h, m = flat[s].shape[1] // 2, min(nf[s], flat[s].shape[1] // 2) + (kinds[s] == 'freq_bosonic')
            bad[s] = [flat[s][i][h:h + m] for i in fails.get(s, [])]
        cont.AnalyticContinuationProblem.__init__, cont.AnalyticContinuationProblem.solve = init, solve
        try: dme.main(path=p, comm=comm)
        finally: restore()
        comm.barrier()
        if comm.rank: return {}
        where = dict(s_dga=('MaxEntSiwk/', 'swk_dga'), g_dga=('MaxEntGiwk/', 'gwk_dga'), chi_d=('MaxEntChiDens/', 'chi_dens'), chi_m=('MaxEntChiMagn/', 'chi_magn'))
        out = {}
        for s in dat:
            d, nm = where[s]
            got, w = np.load(p + d + nm + '_cont_fbz.npy'), np.load(p + d + 'w.npy')
            o = dict(me_settings, **sections[s])
            wm = ac.get_w_mesh(o.get('mesh_type', 'tan'), 0.0 if kinds[s] == 'freq_bosonic' else o['wmin'], o['wmax'], o['nwr'], 0.04)
            grid = grids[s]
            sh = float(sig.smom0) if s == 's_dga' else 0.0
            al = np.array([alone(kinds[s], beta, r, nf[s], wm, bw=o['bw'] if kinds[s] == 'freq_fermionic' else 0.0) for r in flat[s]]) + sh
            # failed points: all momenta equivalent to them
            fl = sorted({int(j) for i in fails.get(s, []) for j in range(grid.nk_tot) if np.allclose(flat[s][j], flat[s][i], atol=1e-9)})
            ok = tuple(got.shape) == tuple(grid.nk) + (len(wm),)
            if s == 's_dga' and ok: derived(p + d, got, w, kg, n, beta, f'program p={comm.size} nk={nk} nq={nq}')
            rec.emit(op='main', key=f'program p={comm.size} nk={nk} nq={nq} {s} fails={fl}', got=arr(got.reshape(-1, got.shape[-1]) if ok else got.ravel()[:5], 10000, None), alone=arr(al, 10000, None), fail=fl, shift=int(round(sh * 10000)),
                     w=arr(w, 10000, None)['re'], wwant=arr(wm, 10000, None)['re'])
        if 'loc' in sections: local(p, sig, n, beta, dict(me_settings, **sections))
        return None
    if rec: open(sys.argv[1] + '.at', 'w').write(json.dumps(dict(op='main', key=f'program p={comm.size} nk={nk} nq={nq}')))
    try: go()
    except Exception as e:
        exc = type(e).__name__ + ': ' + str(e)[:150].replace('"', "'").replace('\\', '/')
        import traceback; traceback.print_exc()
        if comm.size > 1:
            open(f'{sys.argv[1]}.exc', 'w').write(exc)
            comm.Abort(3)
        rec.emit(op='main', key=f'program p={comm.size} nk={nk} nq={nq}', exc=exc)


behs = [b for b in json.load(open(sys.argv[2])) if b['p'] == comm.size]
sel = [b for b in behs if len(b['fail']) in (0, b['n'])] if THOROUGH else []
for i in R.permutation(len(behs))[:200 if THOROUGH else 40]: sel.append(behs[i])
for b in sel: listing(b, int(R.randint(1, 4)), 5)
for kind, bw in (('freq_fermionic', 0.0), ('freq_bosonic', 0.0)) + ((('freq_fermionic', 0.05),) if THOROUGH or comm.size == 1 else ()):
    real(kind, 3, int(R.randint(3, 6)), 5, bw)
S = dict(nwr=11, n_fit=4, wmax=6, wmin=-6, bw=0.0)
# fails: flat indices of momenta that the solver refuses
if comm.size in (1, 3) or (THOROUGH and comm.size < 4):
    program(f'a{comm.size}', (4, 4, 1), (2, 2, 1), dict(s_dga=[5], chi_d=[0]) if comm.size > 1 else {}, S, dict(s_dga={}, g_dga=dict(n_fit=3), chi_d={}, chi_m=dict(n_fit=3)))
if comm.size == 3 or (THOROUGH and comm.size < 4):
    program(f'l{comm.size}', (4, 4, 1), (2, 2, 1), {}, S, dict(loc={}))
if comm.size == 2 or (THOROUGH and comm.size < 4):
    program(f'b{comm.size}', (2, 2, 1), (4, 4, 1), dict(s_dga=[0, 1, 2, 3], chi_m=[0, 2, 3]), S, dict(s_dga={}, g_dga={}, chi_d=dict(nwr=9), chi_m={}))
if THOROUGH:
    program(f'c{comm.size}', (4, 4, 1), (4, 4, 1), dict(g_dga=[0], s_dga=[10], chi_d=[1]), dict(S, bw=0.05, mesh_type='hyperbolic'), dict(s_dga={}, g_dga={}, chi_d={}))
if rec:
    rec.close()
    os.remove(sys.argv[1] + '.at')
