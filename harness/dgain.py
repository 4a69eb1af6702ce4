"""Small synthetic DMFT inputs for whole runs, and a plain single-process reference of the ladder calculation.
The reference follows the formulas stated in spec/DgaRun.tla over the full momentum mesh (no symmetry reduction, no ranks)
and uses no routine of the repository except the high-frequency bubble correction (decided by C09)."""
import os
import numpy as np

DEF = dict(nk=(4, 4, 1), nq=None, sym='two_dimensional_square', hr=(1.0, -0.2, 0.1), beta=2.0, u=1.6, n=0.9, mu=0.55, niw=4, niv=4, shell=2, lam='spch', gapeq=True,
           extra=1, seed=1, eliash=False, optics=None, save_fq=False, save_vrg=True, poly=False, keep=False, keep_fq=False, symv=True, keep_pv=True, asympt=-1, off=(0., 0.), k_sym='d-wave', neig=1, n_fit=4, o_fit=3)
vn = lambda beta, n: (2 * n + 1) * np.pi / beta


def ek_mesh(hr, nk):
    """dispersion of the t, t', t'' square lattice"""
    kx, ky, _ = np.meshgrid(*[2 * np.pi * np.arange(m) / m for m in nk], indexing='ij')
    t, tp, tpp = hr
    return -2 * t * (np.cos(kx) + np.cos(ky)) - 4 * tp * np.cos(kx) * np.cos(ky) - 2 * tpp * (np.cos(2 * kx) + np.cos(2 * ky))


class Ref:
    def __init__(self, p):
        self.p = p = {**DEF, **p}
        if p['nq'] is None: p['nq'] = p['nk']
        for a in ('beta', 'u', 'n', 'niw', 'niv', 'shell'): setattr(self, a, p[a])
        self.full = self.niv + self.shell
        self.asy = p['asympt'] if p['asympt'] > 0 else self.full + 2 * self.niw
        opt = p['optics']
        if opt is not None:
            self.wc = opt.get('niw_cond', min(self.niw // 2, self.niv - 1))
            self.wv = opt.get('niw_vert', self.niw)
            self.nb = opt.get('niv_bubble', self.asy - 2 * self.wc)
            self.wb = opt.get('niw_bubble', self.wc)
            self.nvert = self.niv - self.wc
            if self.nb + self.wb >= self.asy: self.asy = self.nb + self.wb
        b, u, n = self.beta, self.u, self.n
        self.m0, self.m1 = u * n / 2 + p['off'][0], -u ** 2 * n / 2 * (1 - n / 2) + p['off'][1]    # tail of the DMFT self-energy; `off`: it need not have the moments of the filling
        self.ek = ek_mesh(p['hr'], p['nk'])
        self.NS = 40                                              # frequencies of the DMFT self-energy file
        self.M = 20 + self.asy                                    # half width of the DMFT lattice Green's function (20 core frequencies at least)
        self.R = np.random.RandomState(p['seed'])
        ii = np.arange(self.M + self.NS)
        s = self.m0 - self.m1 / (1j * vn(b, ii)) + np.where(ii < 8, (.05 - .08j) * u ** 2 / (1 + vn(b, ii) ** 2), 0)
        self.s = lambda i: np.where(i >= 0, s[np.where(i >= 0, i, -i - 1)], np.conj(s[np.where(i >= 0, i, -i - 1)]))
        v = np.arange(-self.M, self.M)
        self.G = 1 / (1j * vn(b, v) + p['mu'] - self.ek[..., None] - self.s(v))
        self.gl = self.G.mean((0, 1, 2))
        self.siw = self.s(np.arange(-self.NS, self.NS))

    def win(self, g, n, sh=0):
        c = g.shape[-1] // 2
        return g[..., c - n + sh:c + n + sh]

    def x0(self, n, w, q=None):
        """bubble -beta G(k, v) G(k+q, v-w), momentum average; local if q is None"""
        if q is None: return -self.beta * self.win(self.gl, n) * self.win(self.gl, n, -w)
        return -self.beta * (self.win(self.G, n) * np.roll(self.win(self.G, n, -w), [-x for x in q], (0, 1, 2))).mean((0, 1, 2))

    # ------------------------------------------------------------------ DMFT input
    def write(self, path):
        """g2 of both channels in a box that is larger than the requested one by `extra`"""
        p, b, e = self.p, self.beta, self.p['extra']
        nw, nv = self.niw + e, self.niv + e
        out = dict(giw=self.win(self.gl, self.NS), siw=self.siw, n=self.n, beta=b, u=self.u, mu_dmft=p['mu'])
        for ch, sg in (('dens', 1), ('magn', -1)):
            mats = {}
            for w in range(nw + 1):
                D = .03 * self.u ** 2 / b ** 2 * (self.R.randn(2 * nv, 2 * nv) + 1j * self.R.randn(2 * nv, 2 * nv))
                D = D + D.T
                if w == 0: D = (D + np.conj(D[::-1, ::-1])) / 2
                gam = sg * self.u / b ** 2 + D
                if not p['symv']: gam = gam + 0  # symmetric by construction
                mats[w] = np.linalg.inv(np.diag(1 / self.x0(nv, w)) + gam)
                mats[-w] = np.conj(mats[w][::-1, ::-1])
            g2 = np.array([mats[w] for w in range(-nw, nw + 1)]) / b
            # the bubble's own relation for -w: x0(-w, v) = conj(x0(w, -v))
            if ch == 'dens': g2[nw] += 2 * np.outer(self.win(self.gl, nv), self.win(self.gl, nv))
            if p['symv']:  # an antisymmetric part that symmetrisation in (v, v') removes again
                for w in range(nw + 1):
                    A = .01 * self.R.randn(2 * nv, 2 * nv); A = A - A.T
                    if w == 0: A = (A + A[::-1, ::-1]) / 2
                    g2[nw + w] += A
                    if w: g2[nw - w] += A[::-1, ::-1]
            out['g4iw_' + ch] = g2
        self.input = out
        np.save(os.path.join(path, 'in.npy'), out, allow_pickle=True)

    def config(self, path):
        p = self.p
        c = dict(box_sizes=dict(niw_core=self.niw, niv_core=self.niv, niv_shell=self.shell),
                 lattice=dict(symmetries=p['sym'], type='t_tp_tpp', hr_input=list(p['hr']), nk=list(p['nk'])),
                 dga=dict(lambda_corr=p['lam']), dmft_input=dict(type='default', input_path=path + '/', fname_1p='in.npy', fname_2p='none', do_sym_v_vp=p['symv']),
                 output=dict(save_vrg=p['save_vrg'], save_fq=p['save_fq'], keep_pairing_vertex=p['keep_pv'], keep_fq_optics=p['keep_fq']))
        if p['asympt'] > 0: c['box_sizes']['niv_asympt'] = p['asympt']
        if tuple(p['nq']) != tuple(p['nk']): c['lattice']['nq'] = list(p['nq'])
        if p['eliash']: c['pairing'] = dict(do_pairing_vertex=True, do_eliash=p['gapeq'], k_sym=p['k_sym'], n_eig=p['neig'], eps=1e-12)
        if p['optics'] is not None: c['optics'] = dict(p['optics'])
        if p['poly']: c['poly_fitting'] = dict(n_fit=p['n_fit'], o_fit=p['o_fit'])
        if p['keep']: c['debug'] = dict(keep_rank_files=True)
        return c

    # ------------------------------------------------------------------ the calculation
    def solve(self):
        p, b, u, niw, niv, full = self.p, self.beta, self.u, self.niw, self.niv, self.full
        e, W, o = p['extra'], range(-niw, niw + 1), {}
        nq = tuple(p['nq']); N = int(np.prod(nq))
        step = [a // c for a, c in zip(p['nk'], nq)]
        qs = [(x, y, z) for x in range(nq[0]) for y in range(nq[1]) for z in range(nq[2])]
        self.qk = qk = [tuple(a * s for a, s in zip(q, step)) for q in qs]
        us = dict(dens=u, magn=-u)
        gam, vrg, chil, xl = {}, {}, {}, {}
        x0c = np.array([self.x0(niv, w) for w in W]); x0f = np.array([self.x0(full, w) for w in W])
        cc, cf = x0c.sum(-1) / b ** 2, x0f.sum(-1) / b ** 2
        for ch, ur in us.items():
            g2 = np.array([m[e:e + 2 * niv, e:e + 2 * niv] for m in self.input['g4iw_' + ch][e:e + 2 * niw + 1]])
            if p['symv']: g2 = (g2 + g2.transpose(0, 2, 1)) / 2
            gx = b * g2
            if ch == 'dens': gx[niw] -= 2 * b * np.outer(self.win(self.gl, niv), self.win(self.gl, niv))
            g = []
            for i in range(2 * niw + 1):
                t = np.linalg.inv(np.diag(1 / x0f[i]) + ur / b ** 2)
                s = self.shell
                g.append(np.linalg.inv(gx[i]) - np.linalg.inv(t[s:s + 2 * niv, s:s + 2 * niv]) + ur / b ** 2)
            gam[ch] = np.array(g)
            a = [np.linalg.inv(np.diag(1 / x0c[i]) + gam[ch][i] - ur / b ** 2) for i in range(2 * niw + 1)]
            vrg[ch] = np.array([m.sum(-1) / x for m, x in zip(a, x0c)])
            xl[ch] = np.array([1 / (1 / (m.sum() / b ** 2 + f - c) + ur) for m, f, c in zip(a, cf, cc)])
            o['gamma_' + ch], o[f'chi_{ch}_loc'] = gam[ch], xl[ch]
        self.vloc = vrg
        # local equation of motion
        core = sum(us[ch] / 2 / b * sum((1 - (1 - us[ch] * xl[ch][i]) * vrg[ch][i]) * self.win(self.gl, niv, -w) for i, w in enumerate(W)) for ch in us)
        sde = u * self.n / 2 + core
        if self.shell:
            sh = sum(u ** 2 / 2 / b * sum(xl[ch][i] * self.win(self.gl, full, -w) for i, w in enumerate(W)) for ch in us)
            sh[self.shell:self.shell + 2 * niv] = core
            sde = u * self.n / 2 + sh
        o['siw_sde_full'] = sde
        # lattice ladder
        xqf = np.array([[self.x0(full, w, q) for w in W] for q in qk])
        s = self.shell
        xqc = xqf[..., s:s + 2 * niv]
        ccq, cfq = xqc.sum(-1) / b ** 2, xqf.sum(-1) / b ** 2
        aux, vq, lad, lam, chi = {}, {}, {}, {}, {}
        for ch, ur in us.items():
            aux[ch] = np.array([[np.linalg.inv(np.diag(1 / xqc[q, i]) + gam[ch][i] - ur / b ** 2) for i in range(2 * niw + 1)] for q in range(N)])
            vq[ch] = aux[ch].sum(-1) / xqc
            lad[ch] = 1 / (1 / (aux[ch].sum((-1, -2)) / b ** 2 + cfq - ccq) + ur)
        self.gam, self.xl = gam, xl
        # double counting: magnetic local full vertex with interaction tails
        dc = np.zeros((N, 2 * niw + 1, 2 * niv), dtype=complex)
        for i in range(2 * niw + 1):
            gu = np.full((2 * full, 2 * full), -u / b ** 2, dtype=complex)
            gu[s:s + 2 * niv, s:s + 2 * niv] = gam['magn'][i]
            X = np.diag(x0f[i])
            F = gu @ np.linalg.inv(np.eye(2 * full) + X @ gu)
            F = np.linalg.inv(np.eye(2 * full) + gu @ X) @ gu
            for q in range(N): dc[q, i] = (-u * (F @ xqf[q, i]))[s:s + 2 * niv]
        # lambda correction
        def root(x, target):
            lo = -np.min(1 / x[:, niw].real); hi = lo + 1
            f = lambda l: (1 / (1 / x + l)).sum().real / N / b - target
            while f(hi) > 0: hi = lo + 2 * (hi - lo)
            lo = lo + 1e-13 * (1 + abs(lo))
            for _ in range(200):
                m = (lo + hi) / 2
                lo, hi = (m, hi) if f(m) > 0 else (lo, m)
            return (lo + hi) / 2
        loc = {ch: xl[ch].sum().real / b for ch in us}
        if p['lam'] == 'spch': lam = {ch: root(lad[ch], loc[ch]) for ch in us}
        elif p['lam'] == 'sp': lam = dict(dens=0.0, magn=root(lad['magn'], loc['magn'] + loc['dens'] - lad['dens'].sum().real / N / b))
        else: lam = dict(dens=0.0, magn=0.0)
        for ch in us:
            chi[ch] = 1 / (1 / lad[ch] + lam[ch])
            o[f'chi_{ch}_lam'] = chi[ch].reshape(nq + (-1,))
        o['lambda'] = np.array([lam['dens'], lam['magn']])
        self.vq, self.dc, self.chi, self.lad = vq, dc, chi, lad
        o['vrg'] = vq
        # lattice equation of motion
        ker = sum({'dens': 1, 'magn': 3}[ch] * us[ch] / 2 * (1 - (1 - us[ch] * chi[ch])[..., None] * vq[ch]) for ch in us) - dc
        self.ker = ker
        sig = np.zeros(p['nk'] + (2 * niv,), dtype=complex)
        for j, q in enumerate(qk):
            for i, w in enumerate(W):
                sig += ker[j, i] * np.roll(self.win(self.G, niv, -w), [-x for x in q], (0, 1, 2))
        sig = sig / N / b + self.win(self.siw, niv) - self.win(sde, niv) + u * self.n / 2
        self.raw = sig
        S = np.zeros(p['nk'] + (2 * full,), dtype=complex) + self.win(self.siw, full)
        S[..., s:s + 2 * niv] = sig
        pos = S[..., full:]
        S = np.concatenate((np.conj(pos[..., ::-1]), pos), -1)
        o['siwk_dga'] = S
        T = full + self.asy
        v = np.arange(-T, T)
        tail = self.m0 - self.m1 / (1j * vn(b, v))
        Sf = np.zeros(p['nk'] + (2 * T,), dtype=complex) + tail
        Sf[..., T - full:T + full] = S
        # chemical potential: filling with the model tail exp.
        vf = np.arange(-full, full); h = self.ek.mean()
        def fill(mu):
            g = (1 / (1j * vn(b, vf) + mu - self.ek[..., None] - S)).mean((0, 1, 2))
            gm = 1 / (1j * vn(b, vf) + mu - h - self.m0)
            return 2 * (1 / (1 + np.exp(b * (self.m0 + h - mu))) + (g - gm).real.sum() / b)
        lo, hi = -30.0, 30.0
        for _ in range(200):
            m = (lo + hi) / 2
            lo, hi = (m, hi) if fill(m) < self.n else (lo, m)
        mu = (lo + hi) / 2
        o['mu'] = np.array([mu, p['mu']])
        Gd = 1 / (1j * vn(b, v) + mu - self.ek[..., None] - Sf)
        o['giwk_dga'] = Gd
        vm = np.arange(-self.M, self.M)
        sd = self.s(vm)
        en = lambda g, sg: ((self.ek[..., None] * g).sum().real / b / self.ek.size, ((sg - self.m0) * g).sum().real / b / self.ek.size)
        kd, pd = en(Gd, Sf); km, pm = en(self.G, sd)
        vq20 = np.arange(-20, 20)
        gm = 1 / (1j * vn(b, vq20) + p['mu'] - h - self.m0)
        ndm = 2 * (1 / (1 + np.exp(b * (self.m0 + h - p['mu']))) + (self.win(self.gl, 20) - gm).real.sum() / b)
        o['energies'] = np.array([kd, km, pd + self.m0 * self.n / 2, pm + self.m0 * ndm / 2])
        # vertices
        def parts(ch):
            f1 = b ** 2 / xqc[..., :, None] * (np.eye(2 * niv) - aux[ch] / xqc[..., None, :])
            f2 = us[ch] * vq[ch][..., :, None] * vq[ch][..., None, :]
            return f1 + (1 - us[ch] * chi[ch])[..., None, None] * f2
        if p['save_fq'] or p['eliash'] or p['optics']:
            F = {ch: parts(ch) for ch in us}
            if p['save_fq']:
                for ch in us: o['F_' + ch] = F[ch].reshape(nq + F[ch].shape[1:])
        if p['eliash']:
            P = min(niw // 2, niv // 2)
            pp = {}
            for ch in us:
                A = np.zeros((N, 2 * P, 2 * P), dtype=complex)
                for a in range(-P, P):
                    for c in range(-P, P):
                        for sgn, (x, y) in ((0, (a, c)), (1, (c, a))):
                            t1 = -(b ** 2 / xqc[:, x - y + niw, x + niv] * ((x == -y - 1) - aux[ch][:, x - y + niw, x + niv, -y - 1 + niv] / xqc[:, x - y + niw, -y - 1 + niv]))
                            t2 = -(us[ch] * vq[ch][:, x - y + niw, x + niv] * vq[ch][:, x - y + niw, -y - 1 + niv])
                            if sgn: t1, t2 = np.conj(t1), np.conj(t2)
                            A[:, a + P, c + P] += .5 * (t1 + (1 - us[ch] * chi[ch][:, a - c + niw]) * t2)
                pp[ch] = A
            o['F_sing_pp'] = (1.5 * pp['magn'] - .5 * pp['dens']).reshape(nq + (2 * P, 2 * P))
            o['F_trip_pp'] = (.5 * pp['magn'] + .5 * pp['dens']).reshape(nq + (2 * P, 2 * P))
        if p['optics'] is not None:
            nk = p['nk']
            kx, ky, _ = np.meshgrid(*[2 * np.pi * np.arange(m) / m for m in nk], indexing='ij')
            t, tp, tpp = p['hr']
            d = [2 * t * np.sin(kx) + 4 * tp * np.sin(kx) * np.cos(ky) + 4 * tpp * np.sin(2 * kx), 2 * t * np.sin(ky) + 4 * tp * np.cos(kx) * np.sin(ky) + 4 * tpp * np.sin(2 * ky)]
            la, lb = d[p['optics'].get('der_a', 0)], d[p['optics'].get('der_b', 0)]
            mir = lambda x: np.concatenate((np.conj(x[:0:-1]), x))
            if p['optics'].get('do_bubble'):
                o['chijj_bubble'] = mir(np.array([-2 / b * (la[..., None] * lb[..., None] * self.win(Gd, self.nb) * self.win(Gd, self.nb, -w)).sum() / self.ek.size for w in range(self.wb + 1)]))
            if p['optics'].get('do_vertex'):
                wc, wv, nn = self.wc, self.wv, self.nvert
                C = -.5 * F['dens'] - 1.5 * F['magn']
                C = C[:, niw - wv:niw + wv + 1]
                fc = np.zeros((N, 2 * wv + 1, wc + 1, 2 * nn), dtype=complex)
                for w in range(wc + 1):
                    for a in range(-nn, nn): fc[:, :, w, a + nn] = C[:, :, a + niv, a - w + niv]
                o['F_cond'] = fc.reshape(nq + fc.shape[1:])
                out = []
                for w in range(wc + 1):
                    tot = 0
                    gg = la[..., None] * self.win(Gd, nn) * self.win(Gd, nn, -w)
                    for j, q in enumerate(qk):
                        for i, wp in enumerate(range(-wv, wv + 1)):
                            g2 = lb[..., None] * self.win(Gd, nn, -wp) * self.win(Gd, nn, -wp - w)
                            tot += (gg * np.roll(g2, [-x for x in q], (0, 1, 2)) * fc[j, i, w]).sum() / self.ek.size
                    out.append(-2 / (b ** 2 * N) * tot)
                o['chijj_vert'] = mir(np.array(out))
        return o
