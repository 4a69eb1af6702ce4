"""Driver (C22): self-energy and Green's function objects.  d_dyson.py <out>"""
import sys
import numpy as np
from rec import Rec, THOROUGH, SEED, arr, ints, warr, wx, BAD
from dga import two_point as twop
rec = Rec(sys.argv[1])
R = np.random.RandomState(SEED + 22)
gi = lambda sh, m=4: (R.randint(-m, m + 1, sh) + 1j * R.randint(-m, m + 1, sh)).astype(complex)
full = lambda h: np.concatenate((np.conj(h[..., ::-1]), h), axis=-1)
SC = 10 ** 7


def odd(a):
    """the array (frequency last, full range) times |2n+1|-signed odd numbers"""
    n = a.shape[-1] // 2
    return np.asarray(a) * (2 * np.arange(-n, n) + 1)


def pk(nk, a):
    a = np.asarray(a)
    return np.broadcast_to(a, tuple(nk) + a.shape[3:])


def build(nk, niv, nc, b, s0, s1, pos, loc, exact_tail=None):
    h = gi(((1, 1, 1) if loc else nk) + (niv,))
    if exact_tail is not None:     # data which follow the tail from this frequency on
        n = np.arange(niv)
        t = s0 + 1j * s1 / (2 * n + 1)
        h = h + 300 * (1 + 1j)    # clearly off the tail before
        h[..., exact_tail:] = t[exact_tail:]
    sig = h if pos else full(h)
    if loc == 'flat': sig = sig[0, 0, 0]
    kw = {} if exact_tail is not None else dict(smom0=s0, smom1=b * s1)
    return h, twop.SelfEnergy(sig, np.pi / b, pos=pos, niv_core=nc, **kw), sig


def sigma_cases():
    for j in range(40 if THOROUGH else 12):
        nk = [(1, 1, 1), (2, 2, 1), (3, 1, 2), (1, 2, 3), (4, 2, 1)][j % 5]
        niv = int(R.randint(4, 9)); nc = int(R.randint(1, niv + 1)); b = int(R.randint(1, 4))
        s0, s1 = int(R.randint(-5, 6)), int(R.randint(-6, 7))
        pos, loc = bool(R.randint(2)), [False, True, 'flat'][j % 3] if j % 2 else False
        if loc == 'flat': nk = (1, 1, 1)
        if loc: nk = (1, 1, 1)
        h, s, sig = build(nk, niv, nc, b, s0, s1, pos, loc)
        keep = sig.copy()
        base = dict(nk=list(nk), nc=nc, b=b, s0=s0, s1=s1, data=arr(h))
        key = f'sigma nk{nk} niv{niv} core{nc} b{b} pos{pos} loc{loc}'
        for w in sorted({1, nc, nc + 1, niv, niv + 3, int(R.randint(1, niv + 4))}):
            for sh in (False, True):
                rec.run('siw', lambda: dict(out=arr(odd(s.get_siw(w, pi_shift=sh))), same=bool(np.array_equal(sig, keep))), key=key + f' window{w} shift{sh}', w=w, shift=sh, **base)
        rec.run('siw', lambda: dict(out=arr(odd(s.get_siw())), same=True), key=key + ' default window', w=niv, shift=False, **base)
        rec.run('siw', lambda: dict(out=arr(odd(s.sigma_core)), same=True), key=key + ' core', w=nc, shift=False, **base)
        for na, nm in ((3, None), (2, 0), (4, nc), (1, 7)):
            for p in (True, False):
                lo = nc if nm is None else nm
                rec.run('asy', lambda: dict(out=arr(s.get_asympt(na, n_min=nm, pos=p) * ((2 * np.arange(lo, lo + na) + 1) if p else
                                                     np.concatenate((-(2 * np.arange(lo, lo + na) + 1)[::-1], 2 * np.arange(lo, lo + na) + 1))))),
                        key=key + f' asympt {na} {nm} {p}', na=na, lo=lo, pos=p, **base)
        rec.run('meta', lambda: dict(niv=int(s.niv), nkk=[int(x) for x in s.nk], kmean=arr(s.k_mean(), int(np.prod(nk))), beta=int(np.rint(s.beta * b / np.pi * 1000))), key=key + ' meta', **base)

        # DGA self-energy wrapped in this one (a local DMFT self-energy)
        if not loc: continue
        nkd = [(2, 1, 1), (2, 3, 1), (1, 2, 2)][j % 3]
        c = int(R.randint(1, 5)); sh = int(R.randint(0, 5))
        g = gi(nkd + (c,))

        def wrap():
            f = full(g); k0 = f.copy()
            d = twop.create_dga_siwk_with_dmft_as_asympt(f, s, sh)
            return dict(out=arr(odd(d.get_siw(c + sh + 2))), core=int(d.niv_core), same=bool(np.array_equal(f, k0) and np.array_equal(sig, keep)))
        rec.run('wrap', wrap, key=key + f' wrapped core{c} shell{sh}', nkd=list(nkd), c=c, sh=sh, dga=arr(g), **base)


def fit_cases():
    for j in range(24 if THOROUGH else 10):
        nk = [(1, 1, 1), (2, 2, 1), (1, 3, 2)][j % 3]
        niv = int(R.choice([30, 45, 60])); b = int(R.randint(1, 4)); s0, s1 = int(R.randint(-5, 6)), int(R.randint(-9, 10))
        top = niv - max(4, int(.2 * niv))           # the moments come from the highest fifth of the frequencies
        m = top if j % 4 == 0 else min(top, int(R.choice([3, 10, 19, 20, 21, 24, 33])))
        m2 = m if j % 2 else min(top, int(R.choice([3, 20, 23, 24])))    # real and imaginary part settle at different frequencies
        err, off, near = [(None, 300., 0.), (None, 3e-4, 0.), (.5, .6, .4), (1e-2, .02, .009)][j % 4]
        n = np.arange(niv)
        sg = R.choice([-1, 1], (2, niv))
        t = s0 + 1j * s1 / (2 * n + 1)
        loc = t + np.where(n < m, off, np.where(n < top, near, 0)) * sg[0] + 1j * np.where(n < m2, off, np.where(n < top, near, 0)) * sg[1]
        dev = gi(nk + (niv,)); dev = dev - dev.mean(axis=(0, 1, 2))      # momentum dependence without momentum mean
        h = loc + dev
        pos = bool(j % 2)
        sig = h if pos else full(h)
        if nk == (1, 1, 1) and j % 2: sig = sig[0, 0, 0]
        rec.run('fit', lambda: (lambda s: dict(s0f=int(np.rint(s.smom0 * 1000)), s1f=int(np.rint(s.smom1 / b * 1000)), core=int(s.niv_core)))(
                    twop.SelfEnergy(sig, np.pi / b, pos=pos, **({} if err is None else dict(err=err)))), key=f'fit nk{nk} niv{niv} tail from {m} and {m2} err{err}', s0=s0, s1=s1, m=max(m, m2))
    for j in range(12 if THOROUGH else 6):     # moments of arbitrary data: means over the highest fifth
        niv = [4, 5, 10, 20, 25, 60][j % 6]; nf = max(4, int(.2 * niv))
        nk = [(1, 1, 1), (2, 1, 2)][j % 2]
        h = gi(nk + (niv,))
        iv = 1j * (2 * np.arange(niv) + 1)
        rec.run('mom', lambda: (lambda o: dict(m0=arr(np.array(o[0]), nf * int(np.prod(nk))), m1=arr(np.array(o[1]), nf * int(np.prod(nk)))))(twop.fit_smom(iv, h)), key=f'moments nk{nk} niv{niv}', nk=list(nk), data=arr(h), nf=nf)
    for u in (0, 1, 2, 3, 8):
        for p in (0, 1, 5, 10, 17, 20):
            rec.run('smom', lambda: dict(s0=int(np.rint(twop.get_smom0(float(u), p / 10) * 1e6)), s1=int(np.rint(twop.get_smom1(float(u), p / 10) * 1e6)), c=int(np.rint(twop.get_sum_chiupup(p / 10) * 1e6))), key=f'moments u{u} n{p}', u=u, p=p)
    for nk, nv, d in (((1, 1, 1), 44, 2), ((2, 1, 3), 50, 1), ((2, 2, 1), 48, 5)):
        rec.run('const', lambda: (lambda s: dict(out=arr(s.get_siw(20)), niv=int(s.niv), b=int(np.rint(s.beta))))(twop.sigma_const(7, d, nk, np.arange(-nv // 2, nv // 2))), key=f'constant self-energy {nk} {nv} {d}', nk=list(nk), nv=nv, d=d)


def g_cases():
    for j in range(30 if THOROUGH else 10):
        nk = [(1, 1, 1), (2, 2, 1), (3, 1, 2), (1, 2, 3), (4, 2, 1)][j % 5]
        niv = int(R.randint(4, 9)); nc = int(R.randint(1, niv + 1)); b = int(R.randint(1, 4)); na = int(R.randint(0, 6)) if j else 0
        s0, s1 = int(R.randint(-5, 6)), int(R.randint(-3, 10))
        loc = bool(j % 2)
        ek = R.randint(-4, 5, nk)
        tot = int(np.prod(nk))
        ek.flat[0] -= ek.sum() % tot        # integer mean
        mu = int(ek.sum() // tot + s0) if j % 3 == 0 else int(R.randint(-4, 5))
        h = gi(((1, 1, 1) if loc else nk) + (niv,))
        h.imag = np.where(h.imag > 0, -h.imag, h.imag)     # causal
        s = twop.SelfEnergy(h, np.pi / b, pos=True, smom0=s0, smom1=b * s1, niv_core=nc)
        if loc: ekey = 'local'
        else: ekey = 'k'
        base = dict(nk=list(nk), nc=nc, b=b, s0=s0, s1=s1, data=arr(np.broadcast_to(h, nk + (niv,))), ek=arr(ek), mu=mu, na=na)
        key = f'g nk{nk} core{nc}+{na} b{b} {ekey} mu{mu}'

        def go():
            k0, e0 = h.copy(), ek.astype(float)
            e1 = e0.copy()
            g = twop.GreensFunction(s, e0, mu=mu, niv_asympt=na)
            f = g.g_full()
            r = dict(core=arr(g.core, SC, None), full=arr(f, SC, None), stored=bool(np.array_equal(g.full, f)), shifted=arr(g.g_full(pi_shift=True), SC, None), loc=arr(g.g_loc, SC, None), locc=arr(g.k_mean('core'), SC, None),
                     locf=arr(g.k_mean('full'), SC, None), ekin=int(np.rint(g.e_kin / b * np.pi * 1e5)), epot=int(np.rint((g.e_pot - s0 * g.n / 2) / b * np.pi * 1e5)), nx=int(np.rint((g.n - 1) * np.pi / b * 1e6)), half=bool(mu == ek.sum() // tot + s0),
                     fs=arr(g.fs() * np.pi, SC, None), grid=[int(g.niv_core), int(g.niv_full), int(g.niv_asympt)], vs=ints(np.rint(g.v / b)), vn=ints(g.vn), vc=ints(np.rint(g.v_core / b)),
                     mu_=int(np.rint(g.mu * 1000)), same=bool(np.array_equal(h, k0) and np.array_equal(e0, e1)), sigf=arr(odd(np.broadcast_to(g.get_sigma_full(na), nk + (2 * (nc + na),)))))
            g.set_g_asympt(na + 2)
            r['full2'] = arr(g.g_full(), SC, None)
            r['loc2'] = arr(g.g_loc, SC, None)
            return r
        rec.run('g', go, key=key, **base)

    # flat bands: the filling is the Fermi function
    for e, s0, m, b in ((0, 0, 1, 1), (2, 1, 3, 2), (-1, 3, 9, 1), (1, 0, 99, 3), (0, 5, 2, 2)):
        for sgn in (1, -1):
            beta = np.pi / b
            mu = e + s0 - sgn * np.log(m) / beta
            sg = twop.SelfEnergy(np.full((1, 1, 1, 6), s0, dtype=complex), beta, pos=True, smom0=s0, smom1=0, niv_core=6)
            ek = np.full((2, 2, 1), float(e))
            rec.run('fill', lambda: dict(n=int(np.rint(twop.GreensFunction(sg, ek, mu=mu, niv_asympt=3).n * 1e6)),
                                         mu_=int(np.rint((twop.GreensFunction(sg, ek, n=2 / (1 + m) if sgn > 0 else 2 * m / (1 + m), niv_asympt=3).mu - mu) * 1e4))),
                    key=f'flat band filling e{e} s{s0} m{m} {sgn}', m=m, sgn=sgn)

    # the filling for any chemical potential: Fermi function of the model plus the sum over the difference
    for j in range(40 if THOROUGH else 14):
        nk = [(1, 1, 1), (2, 2, 1), (3, 1, 2), (1, 4, 1)][j % 4]
        nc = int(R.randint(2, 8)); b = int(R.randint(1, 4)); na = int(R.randint(2, 6)); sh = int(R.randint(0, 3))
        s0, s1 = int(R.randint(-4, 5)), int(R.randint(-3, 10))
        ek = R.randint(-3, 4, nk)
        tot = int(np.prod(nk))
        ek.flat[0] -= ek.sum() % tot
        jj = [0, 1, -1, 2, 3, -4, 6, -8, 5, 25, -25, 26, 28, -28][j % 14]
        mu = ek.sum() / tot + s0 - b * jj / 4
        h = gi(((1, 1, 1) if j % 3 == 0 else nk) + (nc + 1,)); h.imag = -np.abs(h.imag)
        s = twop.SelfEnergy(h, np.pi / b, pos=True, smom0=s0, smom1=b * s1, niv_core=nc)
        rec.run('filln', lambda: (lambda g: dict(n=int(np.rint(g.n * 1e6)), loc=arr(g.g_loc, 10 ** 6, None), m4=int(np.rint(4 * g.mu))))(twop.GreensFunction(s, ek.astype(float), mu=mu, niv_asympt=na, niv_shell_mu_find=sh)),
                key=f'filling nk{nk} core{nc}+{sh} b{b} j{jj}', nk=list(nk), b=b, s0=s0, jj=jj, W=nc + na, win=nc + sh, ek=arr(ek), want4=int(np.rint(4 * mu)))
    for j in range(8):
        g = gi((2 * int(R.randint(1, 6)),), 9)
        bt = float(2 ** (j % 4))
        rec.run('fillp', lambda: dict(n=arr(np.array(twop.get_fill_primitive(g, bt)), bt)), key=f'plain filling {j}', g=arr(g), b=int(bt))


def mu_cases():
    # physical self-energies  U n / 2 + V^2 / (iv - e): the chemical potential found for a filling reproduces it
    for j in range(60 if THOROUGH else 20):
        beta = float(R.choice([1, 2, 5, 10, 25, 40])); U = float(R.choice([0, 1, 2, 4, 8])); nt = float(R.uniform(.2, 1.8))
        niv = 50
        v = (2 * np.arange(niv) + 1) * np.pi / beta
        sig = U * nt / 2 + U ** 2 * nt / 2 * (1 - nt / 2) / (1j * v - R.uniform(-1, 1))
        ek = R.uniform(-2, 2, [(1, 1, 1), (4, 4, 1), (3, 2, 2)][j % 3])

        def go():
            s = twop.SelfEnergy(sig[None, None, None, :], beta, pos=True, smom0=U * nt / 2, smom1=-U ** 2 * nt / 2 * (1 - nt / 2), niv_core=niv)
            kw = dict(niv_asympt=8, niv_shell_mu_find=[0, 0, 30, 5][j % 4])
            g = twop.GreensFunction(s, ek, n=nt, **kw)
            h = twop.GreensFunction(s, ek, mu=g.mu, **kw)
            return dict(want=int(np.rint(nt * 1e6)), got=int(np.rint(h.n * 1e6)), claimed=int(np.rint(g.n * 1e6)), sameg=bool(np.allclose(h.full, g.full)))
        rec.run('mu', go, key=f'mu search beta{beta} U{U} n{nt:.4f}')

        def direct():       # the search routine itself, from other starting points
            iv = 1j * np.concatenate((-v[::-1], v))
            sk = np.concatenate((np.conj(sig[::-1]), sig))[None, None, None, :]
            kw = dict(iv=iv, hk=ek, siwk=sk, beta=beta)
            mu = twop.update_mu(mu0=float(R.choice([-30, -3, 0, 5, 40])), target_filling=nt, smom0=U * nt / 2, **kw)
            return dict(want=int(np.rint(nt * 1e6)), got=int(np.rint(twop.get_fill(mu=mu, hloc=np.mean(ek), smom0=U * nt / 2, **kw)[0] * 1e6)), claimed=int(np.rint(nt * 1e6)), sameg=bool(np.isrealobj(mu)))
        rec.run('mu', direct, key=f'mu search from elsewhere beta{beta} U{U} n{nt:.4f}')

        def plain():        # without the model; needs a long sum and starts at the middle
            vv = (2 * np.arange(400) + 1) * np.pi / beta
            iv = 1j * np.concatenate((-vv[::-1], vv))
            sk = np.full((1, 1, 1, 800), U * nt / 2, complex)
            kw = dict(iv=iv, hk=ek, siwk=sk)
            mu = twop.update_mu_primitive(mu0=U * nt / 2 + float(np.mean(ek)), target_filling=nt, beta=beta, **kw)
            return dict(want=int(np.rint(nt * 1e6)), got=int(np.rint(twop.get_fill_primitive(twop.get_gloc(mu_trial=mu, **kw), beta).real * 1e6)), claimed=int(np.rint(nt * 1e6)), sameg=bool(np.isrealobj(mu)))
        if beta <= 5 and .4 < nt < 1.6: rec.run('mu', plain, key=f'plain mu search beta{beta} U{U} n{nt:.4f}')


def real_cases():
    for j in range(12 if THOROUGH else 4):
        nk = [(1, 1, 1), (2, 2, 1), (3, 1, 2), (2, 3, 1)][j % 4]
        loc = bool(j % 2)
        w = [np.arange(-4, 5), np.array([-9, -7, -4, -3, -1, 1, 2, 5, 9]), np.array([-8, -5, -2, 0, 1, 2, 3, 4, 7]), np.array([-8, -6, -5, -4, -3, -2, -1, 2, 3])][j // 4 % 4 if THOROUGH else (j * 3 + SEED) % 4]
        ek = R.randint(-3, 4, nk)
        sw = R.randint(-3, 4, ((1, 1, 1) if loc else nk) + (9,)) - 1j * R.randint(1, 5, ((1, 1, 1) if loc else nk) + (9,))
        mu, dl = int(R.randint(-3, 4)), int(R.randint(0, 3))

        def go():
            g = twop.RealFrequencyGF(w.astype(float), sw.astype(complex), ek.astype(float), mu=mu, deltino=float(dl))
            return dict(g=arr(g.gwk(), SC, None), shifted=arr(g.gwk(pi_shift=True), SC, None), loc=arr(g.gw, SC, None), awk=arr(g.awk() * np.pi, SC, None), fs=arr(g.fs() * np.pi, SC, None),
                        n=int(np.rint(g.n * np.pi * 1e6)))
        rec.run('real', go, key=f'real frequency nk{nk} loc{loc}', nk=list(nk), w=ints(w), mu=mu, dl=dl, ek=arr(ek), sw=arr(np.broadcast_to(sw, nk + (9,))))
    for j in range(9 if THOROUGH else 3):     # chemical potential found for a filling
        nk = [(1, 1, 1), (2, 2, 1), (3, 1, 2)][j % 3]
        w = np.linspace(-12, 12, 241)
        ek = R.randint(-1, 2, nk).astype(float)
        dl = float(R.choice([.5, 1.]))
        sw = np.full((1, 1, 1, 241) if j % 2 else nk + (241,), -1j * dl)
        nt = float(R.uniform(.5, 1.5))

        def found():
            g = twop.RealFrequencyGF(w, sw, ek, n=nt)
            h = twop.RealFrequencyGF(w, sw, ek, mu=float(np.squeeze(g.mu)))
            t = g.get_gwk_tb(deltino=dl)
            i = np.argsort(np.abs(w), kind='stable')[:15]
            return dict(want=int(np.rint(nt * 1e4)), got=int(np.rint(float(h.n) * 1e4)), claimed=int(np.rint(float(g.n) * 1e4)), mu=wx(np.squeeze(g.mu)), w=[wx(x) for x in w[i]], dl=wx(dl), g=warr(g.gwk()[..., i]), tb=warr(t.gwk()[..., i]), mut=wx(np.squeeze(t.mu)), ntb=int(np.rint(float(t.n) * 1e4)))
        rec.run('realmu', found, key=f'real-frequency mu search nk{nk} n{nt:.4f}', nk=list(nk), ek=arr(ek))


sigma_cases(); fit_cases(); g_cases(); mu_cases(); real_cases()
rec.close()
