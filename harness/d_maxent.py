"""Driver (C25): maximum-entropy continuation.  d_maxent.py <out> <scratch>"""
import io, os, signal, sys
import numpy as np
from scipy import optimize as opt
from rec import Rec, arr, warr, wx, ints, THOROUGH, SEED
import rec as recmod
rec = Rec(sys.argv[1])
scratch = sys.argv[2]
os.makedirs(scratch, exist_ok=True)
sys.stdout = io.StringIO()
from ana_cont import continuation as cont, solvers, kernels
from dcfg import quiet_plots
from dga import analytic_continuation as ac, config, matsubara_frequencies as mf
R = np.random.RandomState(SEED + 250)
PI = np.pi
S1 = 1048576
LN2 = np.log(2.0)
np.seterr(all='ignore')


class Slow(Exception): pass


def hung(*_): raise Slow('no result within 90 s')


run0 = rec.run


def guarded(op, fn, key=None, **kw):
    """a call that does not come back is a finding of the record, not of the harness"""
    def go():
        signal.signal(signal.SIGALRM, hung)
        signal.setitimer(signal.ITIMER_REAL, 90, 5)
        try: return fn()
        finally: signal.setitimer(signal.ITIMER_REAL, 0)
    return run0(op, go, key=key, **kw)


rec.run = guarded


def w1(a): return [int(np.rint(float(x) * S1)) if abs(float(x)) < 2000 else recmod.BAD for x in np.ravel(a)]


# ------------------------------------------------------------------------------------------------------------ kernels
def axis8(n, lo, hi):
    return np.sort(R.permutation(np.arange(lo, hi + 1))[:n])


for j in range(40 if THOROUGH else 14):
    kind = ['freq_fermionic', 'freq_bosonic', 'freq_bosonic_xyz', 'freq_fermionic_phsym'][j % 4]
    bos = 'bosonic' in kind
    x8 = axis8(int(R.randint(1, 7)), 0 if bos else 2, 60)
    if bos and (j // 4) % 2 == 0: x8[0] = 0
    w8 = axis8(int(R.randint(2, 10)), 0 if bos or 'phsym' in kind else -60, 60)
    if j % 8 == 1: x8[0], w8 = 0, np.unique(np.concatenate((axis8(3, -40, 40), [0, -41])))      # zero inside the mesh
    if j % 3 == 0: w8[0] = 0 if w8[0] > 0 else w8[0]
    if kind == 'freq_fermionic_phsym' and (w8[0] == 0): w8[0] = 1 if 1 not in w8 else 0
    if kind == 'freq_bosonic_xyz' and w8[0] == 0 and x8[0] == 0: w8 = w8[1:] if len(w8) > 1 else w8 + 1
    if kind == 'freq_bosonic_xyz' and x8[x8 > 0].size and x8[x8 > 0][0] < 2: x8 = np.where(x8 == 1, 0 if 0 not in x8 else 61, x8); x8.sort()

    def go():
        k = kernels.Kernel(kind, w8 / 8, x8 / 8)
        rm = k.real_matrix()
        ok = np.array_equal(rm, np.concatenate((k.matrix.real, k.matrix.imag))) if kind == 'freq_fermionic' else np.array_equal(rm, k.matrix)
        if not (ok and k.nw == len(w8) and k.niw == len(x8)): raise RuntimeError('kernel object is not consistent')
        return dict(K=warr(k.matrix))
    rec.run('kern', go, key=f'kernel {kind} {list(w8)} {list(x8)}', kind=kind, w=[int(x) * S1 // 64 for x in w8], x=[int(x) * S1 // 64 for x in x8])

for j in range(24 if THOROUGH else 9):
    kind = ['time_fermionic', 'time_bosonic', 'time_fermionic_phsym'][j % 3]
    if kind == 'time_fermionic_phsym' and j > 20: continue
    step = 4 if j % 2 else 1
    hi = 16 if kind == 'time_fermionic' else 8
    a = np.sort(R.permutation(np.arange(-hi if kind == 'time_fermionic' else 0, hi + 1, 4))[:6]) if step == 4 else np.arange(-12 if kind == 'time_fermionic' else 0, 9 if kind != 'time_fermionic_phsym' else 6)
    if kind == 'time_bosonic': a = np.unique(np.concatenate(([0], a)))
    t = np.sort(R.permutation(5)[:R.randint(2, 6)]) if step == 4 else np.array([0, 4])

    def go():
        return dict(K=warr(kernels.Kernel(kind, a * LN2, t / 4.).matrix))
    rec.run('tkern', go, key=f'kernel {kind} {list(a)} {list(t)}', kind=kind, a=ints(a), t=ints(t))
    # very negative frequencies do not overflow
    if kind == 'time_fermionic':
        def big():
            a2 = np.array([-2000, -1200, 0, 1200, 2000])
            return dict(K=warr(kernels.Kernel(kind, a2 * LN2, np.array([0., .25, .5, .75, 1.])).matrix))
        rec.run('tkern', big, key=f'kernel {kind} large frequencies', kind=kind, a=[-2000, -1200, 0, 1200, 2000], t=[0, 1, 2, 3, 4])

for j in range(12 if THOROUGH else 4):
    kind = ['freq_fermionic', 'freq_bosonic'][j % 2]
    b = [0.25, 0.5, 1.0][j % 3]
    x8 = axis8(3, int(8 * b), 40)
    if j % 2: x8[0] = 0
    w8 = axis8(4, 0 if j % 2 else -40, 40)

    def go():
        k = kernels.Kernel(kind, w8 / 8, x8 / 8)
        k0 = k.matrix.copy()
        k.preblur(b)
        v = w8[None, :] / 8 - np.arange(-20, 21)[:, None] * b / 4
        kj = np.array([kernels.Kernel(kind, np.abs(v[i]) if j % 2 else v[i], x8 / 8).matrix for i in range(41)])
        K = k.matrix.copy()
        k.preblur(0.)
        if not (np.array_equal(k.matrix, k0) and np.array_equal(k.original_matrix, k0)): raise RuntimeError('preblur of width 0 changes the kernel')
        return dict(K=warr(K), kj=warr(kj))
    rec.run('blur', go, key=f'preblur {kind} {b} {list(w8)} {list(x8)}')
for j in range(10 if THOROUGH else 4):
    even = bool(j % 2)
    b = [0.25, 0.125][(j // 2) % 2]
    w = np.arange(0 if even else -24, 25) / 8.
    c0 = [int(R.randint(1, 4)), 0, 0] if j < 2 else [int(R.randint(1, 4)), 0 if even else int(R.randint(-2, 3)), int(R.randint(-1, 2))]
    h = c0[0] + c0[1] * w + c0[2] * w ** 2

    def go():
        k = kernels.Kernel('freq_bosonic' if even else 'freq_fermionic', w, np.array([1., 2.]))
        k.preblur(b)
        return dict(out=w1(k.blur(h)))
    ins = (w + 5 * b <= w[-1] + 1e-9) & ((w - 5 * b >= (-w[-1] if even else w[0]) - 1e-9))
    rec.run('blurspec', go, key=f'blurred spectrum even={even} b={b} {c0}', w=w1(w), b=wx(b), c=[x * S1 for x in c0], inside=[bool(x) for x in ins], even=even)


# ------------------------------------------------------------------------------------------------------------ optimum
def rnd8(x): return np.unique(np.rint(np.asarray(x) * 8)) / 8


def problem(kind, nw, niw, beta, err, cov=None, b=0., off=False, default=False, mesh='lin', model='flat', noise=1.0):
    """meshes, data and the kernel of the solver's units"""
    bos, tm = 'bosonic' in kind, kind.startswith('time')
    lo = 0. if bos or 'phsym' in kind else -4.5
    hi = 3.0 if tm and not bos else (2.5 if tm else 6.)
    if tm and not bos: lo = -3.0
    if mesh == 'lin': w = np.linspace(lo, hi, nw)
    else:
        u = np.linspace(-1 if lo < 0 else 0, 1, nw)
        w = hi * u * (0.6 + 0.4 * np.abs(u)) if lo < 0 or lo == 0 else u
    if not tm: w = rnd8(w)
    if 'phsym' in kind and w[0] == 0: w = w[1:]
    nw = len(w)
    if tm: x = np.linspace(0, beta, niw)
    elif kind in ('freq_fermionic', 'freq_fermionic_phsym'): x = np.maximum(np.rint((2 * np.arange(niw) + 1) * PI / beta * 8), 4) / 8
    else: x = np.rint(2 * np.arange(niw) * PI / beta * 8) / 8
    if kind == 'freq_bosonic_xyz': x = x + 5 / 8
    c1, c2 = R.uniform(0.3, 2.0), R.uniform(-2.5, 1.)
    A = np.exp(-(w - c1) ** 2 / .8) + .6 * np.exp(-(w - c2) ** 2 / 1.2) + .03
    A /= np.trapz(A, w)
    D = np.ones(nw) if model == 'flat' else 0.4 + np.exp(-(w - 0.5) ** 2 / 4.)
    D = D / np.trapz(D, w)
    if off:
        A = 0.6 * (np.exp(-(w - c1) ** 2 / .8) - np.exp(-(w + c1) ** 2 / .8))
        A -= np.trapz(A, w) / (w[-1] - w[0])
    re, im = (w * beta, x / beta) if tm else (w, x)
    k = kernels.Kernel(kind, re, im)
    if b: k.preblur(b)
    K = k.matrix.copy()
    As = (0 * A if off else D) if default else A
    G = np.trapz(K * As[None], w, axis=-1)          # physical units: integral over the physical mesh
    if kind == 'time_bosonic': G = G / beta          # the kernel without the rescaling has w instead of w beta as its prefactor
    n = len(x)
    f = kind == 'freq_fermionic'
    sd = err * np.ones(n)
    if cov == 'varying': sd = err * (1 + 0.5 * np.arange(n) / n)
    C = np.diag(sd ** 2).astype(complex if f else float)
    if cov == 'cov':
        M = np.eye(n) + 0.3 * np.diag(np.ones(n - 1), 1) * R.choice([-1, 1])
        C = err ** 2 * M @ M.T
    if cov == 'complex':
        M = np.eye(n) + 0.3j * np.diag(np.ones(n - 1), 1) + 0.2 * np.diag(R.uniform(-1, 1, n - 1), 1)
        C = err ** 2 * M @ M.conj().T
    if not default:
        L = np.linalg.cholesky(C)
        z = R.randn(n) + (1j * R.randn(n) if f else 0)
        G = G + noise * (L @ z)
    if not f: G = np.real(G)
    return dict(kind=kind, w=w, x=x, beta=beta, G=G, D=D, C=C, sd=sd, K=K, re=re, im=im, kern=k, err=err, cov=cov, b=b, off=off, tm=tm, A=A)


def kwargs(p, optimizer='newton'):
    d = dict(model=p['D'] / (p['beta'] if p['tm'] else 1.), offdiag=p['off'], preblur=p['b'] > 0, blur_width=p['b'], optimizer=optimizer, verbose=False)
    if p['cov'] in ('cov', 'complex'): d['cov'] = p['C']
    else: d['stdev'] = p['sd']
    return d


def data(p):
    """what is handed in: physical data (solver units: G for frequency kernels)"""
    return p['G']


class Direct:
    """kernels that only the solver class itself accepts"""
    def __init__(self, p): self.p = p

    def partial_solution(self, method, alpha, ustart, **k):
        self.solver = solvers.MaxentSolverSVD(self.p['x'], self.p['w'], self.p['G'], kernel_mode=self.p['kind'], **k)
        return self.solver.maxent_optimization(alpha, ustart[:self.solver.n_sv])


def acp(p):
    G = data(p)
    if p['kind'] == 'freq_bosonic_xyz': return Direct(p)
    if p['kind'] == 'freq_fermionic_phsym': G = G + 0j        # only the imaginary part, passed as a real number
    return cont.AnalyticContinuationProblem(im_axis=p['x'], re_axis=p['w'], im_data=G, kernel_mode=p['kind'], beta=p['beta'])


def opt_record(p, sol, s, default=False, stat=True):
    """numbers of one solution in the solver's units"""
    sc = p['beta'] if p['tm'] else 1.0
    nd = len(p['x'])
    Gs = p['G'] * (p['beta'] if p['kind'] == 'time_bosonic' else 1.)
    D = p['D'] / sc
    B = np.asarray(sol.backtransform) * (p['beta'] if p['kind'] == 'time_bosonic' else 1.)
    blurred = p['b'] > 0
    hid = np.asarray(s.singular_to_realspace(sol.u_opt)) if blurred else np.asarray(sol.A_opt) / sc
    out = bool(np.allclose(np.asarray(sol.A_opt), p['kern'].blur(hid), rtol=1e-9, atol=1e-12)) if blurred else True
    lv = np.arcsinh(hid / (2 * D)) if p['off'] else np.log(hid / D)
    # record spectra in units in which the kernel integral over the recorded mesh holds: solver units
    r = Gs - B
    sig = p['err']
    e = int(np.clip(np.floor(np.log2(4.0 / max(np.abs(r).max(), 1e-7))), 0, 16))
    d = 2.0 ** e * r
    cn = p['C'] / sig ** 2
    y = np.linalg.solve(cn, d)
    a = float(sol.alpha)
    asx = a * sig ** 2 * 2.0 ** e
    chi = float(sol.chi2) * sig ** 2 * 4.0 ** e / 16
    q = np.array([sol.Q, a * sol.entropy, sol.chi2 / 2])
    qs = max(np.abs(q).max(), 1e-12)
    stat = bool(stat and 0.004 < asx < 15.5 and np.abs(lv).max() < 2.6 and np.abs(y).max() < 15)
    # entries that only make sense in range
    lvr = np.clip(np.where(np.isfinite(lv), lv, -15.9), -15.9, 15.9)
    return dict(K=warr(p['K']), G=warr(Gs), B=warr(B), A=w1(hid), D=w1(D), lv=w1(lvr), e=e, d=warr(d), cn=warr(cn), y=warr(y), chi=w1([chi])[0], norm=w1([sol.norm])[0], S=w1([sol.entropy])[0], stol=int(len(p['w']) * 12),
                stat=stat, default=bool(default), q=[int(np.rint(v / qs * 1e6)) for v in q], unblur=out, **{'as': w1([asx])[0]}), float(np.abs(lv).max())


def opt_static(p):
    ints8 = lambda v: w1(np.asarray(v) / 8) if not p['tm'] else []
    return dict(kind=p['kind'], off=p['off'], blurred=bool(p['b'] > 0), w=w1(p['re']), w8=ints8(p['w']), x8=ints8(p['x']))


CASES = [dict(kind='freq_fermionic'), dict(kind='freq_fermionic', cov='varying'), dict(kind='freq_fermionic', cov='complex'), dict(kind='freq_fermionic', cov='cov', mesh='non'), dict(kind='freq_fermionic', b=0.25), dict(kind='freq_fermionic', off=True),
         dict(kind='freq_bosonic'), dict(kind='freq_bosonic', cov='cov'), dict(kind='freq_bosonic', b=0.25), dict(kind='freq_bosonic', mesh='non', model='bump'), dict(kind='time_fermionic'), dict(kind='time_fermionic', cov='cov', model='bump'), dict(kind='time_bosonic'),
         dict(kind='time_bosonic', cov='varying'), dict(kind='freq_bosonic_xyz'), dict(kind='freq_fermionic_phsym'), dict(kind='freq_fermionic', model='bump'), dict(kind='freq_fermionic', off=True, cov='complex', mesh='non'), dict(kind='freq_fermionic', b=0.125, cov='cov'), dict(kind='time_fermionic', mesh='non')]
made = []
for rep in range(3 if THOROUGH else 1):
    for j, c in enumerate(CASES):
        beta = 4.0 if c['kind'].startswith('time') else [5.0, 3.0, 8.0][(j + rep) % 3]
        nw, niw = [(21, 5), (25, 12), (17, 8), (23, 3)][(j + rep + SEED) % 4]
        err = [1e-2, 3e-3, 3e-2][(j + 2 * rep) % 3]
        p = problem(nw=nw, niw=niw, beta=beta, err=err, **c)
        made.append((c, p))
        for k, alpha in enumerate([(300., 20.), (60., 3.), (1000., 100.), (7., 500.)][(j + rep) % 4] + ((1.5, 30.) if THOROUGH else ())):
            a = alpha * (1e-2 / err) ** 2 * [1, 1, 0.3][j % 3]
            optimizer = ['newton', 'scipy_lm'][(j + k) % 4 == 3]

            def go():
                pr = acp(p)
                sol = pr.partial_solution(method='maxent_svd', alpha=a, ustart=np.zeros(400), **kwargs(p, optimizer))
                r, big = opt_record(p, sol, pr.solver)
                return r
            rec.run('opt', go, key=f'optimum {rep}.{j} {c} nw={nw} niw={niw} err={err} alpha={a:.4g} {optimizer}', **opt_static(p))
    # data of the default model
    for j, c in enumerate([dict(kind='freq_fermionic'), dict(kind='freq_bosonic', cov='cov'), dict(kind='time_fermionic', model='bump'), dict(kind='freq_fermionic', off=True), dict(kind='time_bosonic')]):
        p = problem(nw=19, niw=6, beta=4.0, err=1e-2, default=True, **c)

        def go():
            pr = acp(p)
            sol = pr.partial_solution(method='maxent_svd', alpha=[2., 50., 0.3][j % 3], ustart=np.zeros(400), **kwargs(p))
            return opt_record(p, sol, pr.solver, default=True)[0]
        rec.run('opt', go, key=f'data of the default model {j} {c}', **opt_static(p))


# ------------------------------------------------------------------------------------------------------------ choice of the weight
def kink_record(p, s, run, start, end, div, pos, failed=()):
    count = [0]
    orig = s.maxent_optimization
    starts = []

    def wrapped(*a, **k):
        count[0] += 1
        if count[0] in failed: raise RuntimeWarning('planned failure')
        starts.append(np.array(k['ustart'] if 'ustart' in k else a[1]))
        return orig(*a, **k)
    s.maxent_optimization = wrapped
    sol, arr_ = run()
    s.maxent_optimization = orig
    nt = count[0] - 1
    x = np.log10([o.alpha for o in arr_])
    l = np.log10([o.chi2 for o in arr_])

    def fitfun(x, a, b, c, d): return a + b / (1. + np.exp(-d * (x - c)))
    fit, _ = opt.curve_fit(fitfun, x, l, p0=(0., 5., 2., 0.))
    sg = 1 / (1 + np.exp(-fit[3] * (x - fit[2])))
    return dict(x=w1(x), l=w1(l), S=w1([o.entropy for o in arr_]), nt=nt, failed=[int(i) for i in failed if i <= nt], fit=w1(fit), s=w1(sg), xs=w1([np.log10(sol.alpha)])[0], first=w1([np.log10(start)])[0], last=w1([np.log10(end)])[0],
                step=w1([np.log10(div)])[0], pos=wx(pos), ftol=2000), sol


def solver_of(p):
    pr = acp(p)
    sel = kwargs(p)
    return solvers.MaxentSolverSVD(pr.im_axis, pr.re_axis, pr.im_data, kernel_mode=p['kind'], **sel)


KINKS = [(0, {}), (1, dict(alpha_start=1e8, alpha_end=2e-3, alpha_div=7.)), (6, dict(fit_position=2.0)), (10, dict(alpha_div=5., alpha_start=1e7)), (4, dict(fit_position=3.0)), (12, {}), (7, dict(alpha_end=0.3)), (2, dict(alpha_start=1e7)), (5, dict(alpha_start=1e7))]
for j, (i, kw) in enumerate(KINKS * (2 if THOROUGH else 1)):
    c, p = made[i if j < len(KINKS) else i + len(CASES)]
    full = dict(dict(alpha_start=1e9, alpha_end=1e-3, alpha_div=10., fit_position=2.5), **kw)
    failed = [(), (), (3,), (), (2, 5), (), (), (11,), ()][j % 9]
    holder = {}

    def go():
        s = solver_of(p)
        r, sol = kink_record(p, s, lambda: s.solve_chi2kink(**kw), full['alpha_start'], full['alpha_end'], full['alpha_div'], full['fit_position'], failed)
        holder['sol'], holder['s'] = sol, s
        return r
    signal.signal(signal.SIGALRM, hung)
    signal.setitimer(signal.ITIMER_REAL, 90, 5)
    try: done = go()
    except Slow as e: done = e
    except RuntimeError as e:        # no kink to be found in these data: the search says so
        if 'Fermi fit' in str(e) or 'Optimal parameters not found' in str(e): continue
        done = e
    except Exception as e: done = e
    finally: signal.setitimer(signal.ITIMER_REAL, 0)

    def again():
        if isinstance(done, Exception): raise done
        return done
    rec.run('kink', again, key=f'kink {j} {c} {kw} failed={failed}')
    if 'sol' in holder and np.abs(holder['sol'].A_opt).max() < 15:       # (tiny weights: an overfitted spectrum may leave the range of the recording)
        scl = holder['sol']

        def fin():
            # the solver object itself works in its own units
            o = scl
            z = solvers.OptimizationResult(**{k: getattr(o, k) for k in ('u_opt', 'A_opt', 'chi2', 'backtransform', 'entropy', 'alpha', 'Q', 'norm')})
            if p['tm']: z.A_opt = z.A_opt * p['beta']
            if p['kind'] == 'time_bosonic': z.backtransform = z.backtransform / p['beta']
            return opt_record(p, z, holder['s'])[0]
        rec.run('opt', fin, key=f'optimum at the kink {j} {c}', **opt_static(p))


def bayes_record(p, s, o, optimal):
    sc = p['beta'] if p['tm'] else 1.0
    rows = np.concatenate((p['K'].real, p['K'].imag)) if p['kind'] == 'freq_fermionic' else p['K'].real
    hid = np.asarray(s.singular_to_realspace(o.u_opt)) if p['b'] else np.asarray(o.A_opt)
    D = p['D'] / sc
    wt = np.sqrt(hid ** 2 + 4 * D ** 2) if p['off'] else hid
    re = p['re']
    dw = np.diff(np.concatenate(([re[0]], (re[1:] + re[:-1]) / 2, [re[-1]])))
    N = (rows * (dw * wt)[None]) @ rows.T
    lam, Q = np.linalg.eigh(N)
    lam = np.abs(lam)
    asx = o.alpha * p['err'] ** 2
    ok = 3e-4 < asx < 15 and lam.max() < 15
    if not ok: return None
    return dict(w=w1(re), rows=[w1(r) for r in rows], wt=w1(wt), lam=w1(lam), Q=[w1(q) for q in Q], t=w1(lam / (asx + lam)), L=w1(np.log(1 + lam / asx)), tr=w1([o.trace])[0], ng=w1([o.n_good])[0], aS=w1([o.alpha * o.entropy])[0], conv=w1([o.convergence])[0] if abs(o.convergence) < 1500 else 0, haveconv=bool(abs(o.convergence) < 1500),
                logp=w1([np.log(o.probability)])[0] if o.probability is not None and not p['off'] else 0, la=w1([np.log(o.alpha)])[0], chi2=w1([o.chi2])[0], ttol=int(200 + 40 / asx), haveprob=bool(o.probability is not None and not p['off'] and o.chi2 < 1900 and abs(np.log(o.probability)) < 1000), optimal=optimal, **{'as': w1([asx])[0]})


def small(c, err=1e-2, niw=5, nw=17): return problem(nw=nw, niw=niw if c['kind'] == 'freq_fermionic' else 2 * niw - 2, beta=4.0, err=err, noise=0.7, **c)


for j, c in enumerate([dict(kind='freq_fermionic'), dict(kind='freq_bosonic'), dict(kind='time_fermionic'), dict(kind='freq_fermionic', off=True), dict(kind='freq_fermionic', b=0.25)] * (2 if THOROUGH else 1)):
    p = small(c, err=[1e-2, 2e-2][j % 2])
    for a in (400., 20.):
        res = {}

        def go():
            s = solver_of(p)
            o = s.maxent_optimization(a, np.zeros(s.n_sv), use_bayes=True)
            return bayes_record(p, s, o, False)
        rec.run('bayes', go, key=f'evidence {j} {c} alpha={a}')


class Late(BaseException): pass


def late(*_): raise Late()


def usable(fn):
    """a search may end without a weight, or take too long (data that cannot be fitted): nothing is claimed then"""
    signal.signal(signal.SIGALRM, late)
    signal.setitimer(signal.ITIMER_REAL, 20)
    try: return fn()
    except (RuntimeError, RuntimeWarning, ValueError, FloatingPointError, OverflowError, Late): return None
    finally: signal.setitimer(signal.ITIMER_REAL, 0)


for j, c in enumerate([dict(kind='freq_fermionic'), dict(kind='freq_bosonic'), dict(kind='time_fermionic'), dict(kind='freq_fermionic', mesh='non'), dict(kind='freq_fermionic', b=0.25), dict(kind='time_bosonic')] * (2 if THOROUGH else 1)):
    p = small(c, err=[1e-2, 2e-2, 5e-3][j % 3], niw=6)
    for method in ('classic', 'historic', 'bryan'):
        pr = acp(p)
        r = usable(lambda: pr.solve(method='maxent_svd', alpha_determination=method, **kwargs(p)))
        if r is None: continue            # a search may end without a weight (the code says so)
        sol, lst = r
        s = pr.solver
        sc = p['beta'] if p['tm'] else 1.0
        if method == 'classic' and not p['b']:
            z = solvers.OptimizationResult(**{k: getattr(sol, k) for k in ('u_opt', 'A_opt', 'chi2', 'backtransform', 'entropy', 'alpha', 'Q', 'norm', 'n_good', 'trace', 'convergence', 'probability')})
            z.A_opt = sol.A_opt / sc
            b = bayes_record(p, s, z, True)
            if b is not None: rec.run('bayes', lambda: b, key=f'classic weight {j} {c}')
        if method == 'historic':
            nd = len(p['x']) * (2 if c['kind'] == 'freq_fermionic' else 1)
            rec.run('hist', lambda: dict(ratio=w1([nd / sol.chi2])[0]), key=f'historic weight {j} {c}')
        if method in ('classic', 'historic'):
            rec.run('opt', lambda: opt_record(p, sol, s)[0], key=f'optimum at the {method} weight {j} {c}', **opt_static(p))
        if method == 'bryan':
            def go():
                al = np.array([o.alpha for o in lst]) / 500.
                pb = np.array([o.probability for o in lst])
                As = np.array([o.A_opt for o in lst])
                B = np.trapz(p['K'] * (np.asarray(sol.A_opt) / sc)[None], p['re'], axis=-1)
                if not p['b']:
                    Bs = np.asarray(sol.backtransform) * (p['beta'] if c['kind'] == 'time_bosonic' else 1)
                    if not np.allclose(B, Bs, atol=1e-9): raise RuntimeError('back-transform does not belong to the averaged spectrum')
                return dict(al=w1(al), p=w1(pb / pb.max()), As=[w1(a) for a in As], A=w1(np.asarray(sol.A_opt) / sc))
            rec.run('bryan', go, key=f'bryan {j} {c}')
        if method == 'classic':
            same = usable(lambda: acp(p).solve(method='maxent_svd', alpha_determination=method, **kwargs(p)))
            rec.run('reject', lambda: dict(rej=bool(same is not None and np.array_equal(same[0].A_opt, sol.A_opt))), key=f'repeated {method} search gives the same spectrum {j}')

# ------------------------------------------------------------------------------------------------------------ Kramers-Kronig
for j in range(30 if THOROUGH else 12):
    kind = ['general', 'antisymmetric', 'symmetric'][j % 3]
    n = int(R.randint(2, 10))
    w = np.sort(R.permutation(np.arange(1 if j % 2 else 0, 17) if kind != 'general' else np.arange(-8, 9))[:n])
    h = [1.0, 0.5, 0.125][R.randint(3)]
    A = R.randint(-3, 4, n)
    names = dict(general=['fermionic', 'general'], antisymmetric=['bosonic', 'antisymmetric'], symmetric=['fermionic_phsym', 'symmetric'])[kind]
    name = names[(j // 3) % 2]
    for who in ('ana_cont', 'dga'):
        def go():
            g = cont.GreensFunction(spectrum=A.astype(float), wgrid=w * h, kind=name).kkt() if who == 'ana_cont' else ac.kkt(A.astype(float), w * h, name)
            d = arr(g, S1, None)
            return dict(out=d)
        rec.run('kkt', go, key=f'Kramers-Kronig {who} {name} {list(w)} h={h} {list(A)}', kind=kind, w=ints(w), A=ints(A))
for j in range(12 if THOROUGH else 6):
    n = int(R.randint(3, 14))
    w = np.sort(R.permutation(np.arange(-10, 11))[:n])
    if j == 0: w = w - w[0] - 5; w = np.arange(-5, 6)
    A = R.randint(0, 4, len(w))
    rec.run('fill', lambda: dict(out=wx(ac.check_filling(w.astype(float), (R.randint(-3, 4, len(w)) - 1j * PI * A)))), key=f'filling {list(w)} {list(A)}', w=ints(w), A=ints(A))

# ------------------------------------------------------------------------------------------------------------ the program around the solver
import matplotlib
matplotlib.use('Agg')
quiet_plots()
from dga import plotting
seen = []
solve0, init0 = cont.AnalyticContinuationProblem.solve, cont.AnalyticContinuationProblem.__init__


def init(self, *a, **k):
    init0(self, *a, **k)
    self._handed = (a, dict(k))


def solve(self, *a, **k):
    out = solve0(self, *a, **k)
    seen.append((self, a, dict(k), out[0], self._handed))
    return out


def layer_record(call, kind, beta, n, dat, err, want, result, w, chi=None):
    self, a, k, sol, (ia, ik) = call
    x = np.asarray(self.im_axis)
    handed = np.asarray(self.im_data)
    fld = dict(method=k.get('method', a[0] if a else ''), alpha_determination=k['alpha_determination'], optimizer=k.get('optimizer', 'newton'), preblur=str(bool(k.get('preblur', False))), blur_width=repr(float(k.get('blur_width') or 0.)))
    for q in ('alpha_start', 'alpha_end', 'alpha_div', 'fit_position'):
        if q in want: fld[q] = repr(float(k[q]))
    A = np.asarray(sol.A_opt)
    exp = cont.GreensFunction(spectrum=A, wgrid=w, kind='fermionic').kkt() if kind == 'freq_fermionic' else A * PI / 2
    mod = np.asarray(k['model'])
    return dict(kind=kind, nx=len(x), nexp=n, xb=w1(x * beta / 16 * 16 if np.max(np.abs(x * beta)) < 2000 else x), dataok=bool(np.array_equal(handed, dat)), std=ints(np.rint(np.asarray(k['stdev']) * 1e7)), err=int(np.rint(err * 1e7)), mod=w1(mod), modnorm=wx(np.trapz(mod, w)),
                args=[fld.get(q, '?') for q in sorted(want)], want=[want[q] for q in sorted(want)], link=bool(np.allclose(exp, result, rtol=1e-10, atol=1e-13, equal_nan=True)), chiok=bool(chi is None or chi == sol.chi2))


from dcfg import FakeComm
cont.AnalyticContinuationProblem.__init__, cont.AnalyticContinuationProblem.solve = init, solve
for j in range(12 if THOROUGH else 6):
    kind = ['freq_fermionic', 'freq_bosonic'][j % 2]
    f = kind == 'freq_fermionic'
    beta, niv, nfit = [4.0, 10.0][j % 2 ^ (j // 2) % 2], int(R.randint(6, 12)), int(R.randint(3, 14))
    fr = mf.vn(beta, niv) if f else mf.wn(beta, niv)
    mat = 1 / (1j * fr - R.uniform(-1, 1)) * .6 + .4 / (1j * fr + 1.3) if f else 1 / (1 + R.rand() + fr ** 2)
    err = [1e-2, 2e-3, 0.0123][j % 3]
    det = ['chi2kink', 'chi2kink', 'classic', 'chi2kink', 'bryan', 'chi2kink'][j % 6]
    bw = [0., 0.2, 0.1][j % 3] if f else 0.
    cfg = dict(nwr=21, wmax=6, wmin=-6 if f else 0, n_fit=nfit, err=err, alpha_det_method=det, bw=bw, mesh_type=['linear', 'tan', 'hyperbolic'][j % 3], alpha_start=[1e9, 1e8][j % 2], alpha_end=[1e-3, 1e-2][j % 2], fit_position=[2.5, 2.2][j % 2])

    def go():
        me = ac.MaxEnt(beta, kind, comm=FakeComm(), me_config=cfg)
        seen.clear()
        out = me.cont_single_ind(mat)
        nf = min(nfit, len(mat) // 2)
        dat = mat[len(mat) // 2:len(mat) // 2 + nf + (0 if f else 1)]
        want = dict(method='maxent_svd', alpha_determination=det, optimizer='newton', preblur=str(bw > 0), blur_width=repr(float(bw)), alpha_start=repr(float(cfg['alpha_start'])), alpha_end=repr(float(cfg['alpha_end'])), alpha_div='10.0', fit_position=repr(float(cfg['fit_position'])))
        if len(seen) != 1: raise RuntimeError('the continuation of one point is one call of the solver')
        return layer_record(seen[0], kind, beta, len(dat), dat, err, want, out, me.w)
    rec.run('layer', go, key=f'single {j} {kind} {cfg}')
for j in range(5 if THOROUGH else 3):
    beta, niv, nfit = 5.0, 10, int(R.randint(3, 10))
    fr = mf.vn(beta, niv)
    mat = .6 / (1j * fr - R.uniform(-1, 1)) + .4 / (1j * fr + 1.3)
    mc = config.MaxEntConfig(1.0, beta, dict(nwr=21, wmax=6, n_fit=nfit, err=[1e-2, 3e-3][j % 2], mesh_type=['linear', 'tan'][j % 2], alpha_det_method=['chi2kink', 'classic'][j == 1], use_preblur=bool(j % 3 != 1), bw_range_loc=np.array([0.05, 0.1, 0.2, 0.4, 0.8, 1.6]), bw_fit_position=[1.0, 2.0][j % 2]))
    bw = [0.1, 0.2][j % 2]
    want = lambda b: dict(method='maxent_svd', alpha_determination=mc.alpha_det_method, optimizer='newton', preblur=str(bool(mc.use_preblur)), blur_width=repr(float(b)))

    def go():
        seen.clear()
        g, chi = ac.max_ent_loc(mat, mc, bw)
        return layer_record(seen[0], 'freq_fermionic', beta, nfit, mat[niv:niv + nfit], mc.err, want(bw), g, mc.mesh, chi)
    rec.run('layer', go, key=f'local {j} n_fit={nfit} bw={bw}')
    outs = {}

    def sweep():
        seen.clear()
        d = scratch + f'/bw{j}/'
        os.makedirs(d, exist_ok=True)
        got = ac.max_ent_loc_bw_range(mat, mc, name='loc', out_dir=d)
        outs['calls'] = list(seen)
        ok = len(seen) == len(mc.bw_range_loc)
        files = [np.load(d + f'loc_cont_bw{b}.npy') for b in mc.bw_range_loc]
        for b, c_, m_ in zip(mc.bw_range_loc, seen, files):
            ok = ok and np.allclose(m_, cont.GreensFunction(spectrum=c_[3].A_opt, wgrid=mc.mesh, kind='fermionic').kkt()) and c_[2]['blur_width'] == b
        ok = ok and np.array_equal(np.load(d + 'w.npy'), mc.mesh)
        outs['got'], outs['chi'], outs['dir'] = got, np.array([c_[3].chi2 for c_ in seen]), d
        return dict(rej=bool(ok))
    rec.run('reject', sweep, key=f'each width of the sweep is continued and saved under its name {j}')

    def fit():
        x, l = np.log(mc.bw_range_loc), np.log(outs['chi'])

        def fitfun(x, a, b, c, d): return a + b / (1. + np.exp(-d * (x - c)))
        try: f, _ = opt.curve_fit(fitfun, x, l, p0=(0., 5., 2., 0.))
        except Exception: return dict(rej=bool(outs['got'] == 0.0))
        bo = np.exp(f[2] - mc.bw_fit_position / f[3])
        return dict(rej=bool(np.isclose(bo, outs['got'], rtol=1e-6) and np.isclose(np.loadtxt(outs['dir'] + 'bw_opt_loc.txt'), bo, atol=1e-8)))
    rec.run('reject', fit, key=f'optimal width of the sweep {j}')
cont.AnalyticContinuationProblem.__init__, cont.AnalyticContinuationProblem.solve = init0, solve0


def reject(key, fn, errs):
    def go():
        try: fn()
        except errs: return dict(rej=True)
        return dict(rej=False)
    rec.run('reject', go, key=key)


p = small(dict(kind='freq_fermionic'))
reject('unknown kernel', lambda: kernels.Kernel('freq', p['w'], p['x']), (ValueError,))
reject('kernel without axes', lambda: kernels.Kernel('freq_fermionic', p['w'], None), (ValueError,))
reject('unknown kernel mode', lambda: cont.AnalyticContinuationProblem(p['x'], p['w'], p['G'], 'freq', 4.0), (ValueError,))
reject('complex imaginary axis', lambda: cont.AnalyticContinuationProblem(1j * p['x'], p['w'], p['G'], 'freq_fermionic', 4.0), (ValueError,))
reject('unknown method', lambda: acp(p).solve(method='maxent', **kwargs(p)), (ValueError,))
reject('no weight search given', lambda: acp(p).solve(method='maxent_svd', **kwargs(p)), (KeyError,))
reject('unknown weight search', lambda: acp(p).solve(method='maxent_svd', alpha_determination='kink', **kwargs(p)), (ValueError,))
reject('unknown optimiser', lambda: acp(p).partial_solution(method='maxent_svd', alpha=10., ustart=np.zeros(99), **kwargs(p, 'bfgs')), (ValueError,))
reject('preblur of a time kernel', lambda: kernels.Kernel('time_fermionic', p['w'], p['x'] / 100).preblur(0.1) or (_ for _ in ()).throw(KeyError()), (KeyError, NotImplementedError))
reject('unknown kind of Kramers-Kronig transform', lambda: cont.GreensFunction(spectrum=np.ones(3), wgrid=np.arange(3.), kind='odd').kkt(), (ValueError,))
rec.close()
