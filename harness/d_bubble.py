"""Driver (C09): dga.bubble.  d_bubble.py <out>"""
import sys
import numpy as np
from rec import Rec, THOROUGH, SEED, arr, ints
from objs import obj
from dga import bubble as bub, two_point as twop, brillouin_zone as bz, matsubara_frequencies as mf
rec = Rec(sys.argv[1])
rng = np.random.RandomState(SEED)
NOT = ['minus', 'plus', 'center']


def gint(shape, sym, m=9):
    """Gaussian-integer Green's function on -N..N-1 (last axis); sym: G(-v-1) = conj G(v)"""
    g = rng.randint(-m, m + 1, size=shape) + 1j * rng.randint(-m, m + 1, size=shape)
    if sym:
        n = shape[-1] // 2
        g = np.concatenate((np.conj(np.flip(g[..., n:], -1)), g[..., n:]), axis=-1)
    return g


WNS = [([0], 0), ([2], 0), ([-3, 0, 1, 3], 0), ([1, -2], 0), (list(range(-2, 3)), 0), (list(range(-2, 3)), 1), (list(range(-4, 5)), 1), ([0], 1)]
for n in (8, 11) + ((16,) if THOROUGH else ()):
    for niv in (1, 2, 3, 4) if THOROUGH or n == 8 else (2, 5):
        for wn, full in WNS:
            for nt in NOT:
                beta = int(rng.choice([1, 2, 3, 5, 64, 100]))
                g = gint((2 * n,), full)
                g0 = g.copy()
                w = np.array(wn)
                k = dict(g=arr(g), beta=beta, niv=niv, wn=wn, notation=nt)
                key = f'N{n} niv{niv} wn{wn} {nt} full{full}'
                rec.run('gchi0', lambda: dict(out=arr(bub.vec_get_gchi0(g, beta, niv, w, nt, bool(full)))), key='vec_get_gchi0 ' + key, **k)
                rec.run('chi0', lambda: dict(out=arr(bub.vec_get_chi0_sum(g, beta, niv, w, nt, bool(full)) * beta)), key='vec_get_chi0_sum ' + key, **k)
                gk = g[None, None, None, :]
                for nt2 in (None, nt):
                    gen = lambda: bub.BubbleGenerator(w, obj(gk, beta, np.zeros((1, 1, 1))), freq_notation=nt if nt2 is None else NOT[(NOT.index(nt) + 1) % 3], is_full_wn=bool(full))
                    rec.run('gchi0', lambda: dict(out=arr(gen().get_gchi0(niv, nt2))), key=f'BubbleGenerator.get_gchi0 {nt2} ' + key, **k)
                    rec.run('chi0', lambda: dict(out=arr(gen().get_chi0(niv, freq_notation=nt2) * beta)), key=f'BubbleGenerator.get_chi0 {nt2} ' + key, **k)
for nk in [(1, 1, 1), (2, 2, 1), (4, 1, 1), (3, 4, 1), (2, 3, 2), (1, 2, 3), (3, 1, 4)] + ([(4, 4, 1), (5, 3, 1), (4, 4, 2)] if THOROUGH else []):
    qs = sorted({tuple(int(rng.randint(0, m)) for m in nk) for _ in range(4)} | {(0, 0, 0), tuple(m - 1 for m in nk)})
    # momenta in any order, repeated, negative or beyond one zone, opposite ones next to each other
    a1 = tuple(int(rng.randint(0, m)) for m in nk)
    qmix = [a1, tuple(-x for x in a1), tuple(x + m for x, m in zip(a1, nk)), (-a1[0], a1[1], a1[2]), a1, tuple(rng.randint(-m, 2 * m) for m in nk)]
    qmix = [tuple(int(x) for x in q) for q in qmix]
    qlists = [qs, qmix]
    for iw_, (wn, full) in enumerate(WNS if THOROUGH else WNS[2:7]):
        qs_all = qs
        qs = qlists[iw_ % 2]
        for nt in NOT:
            beta = int(rng.choice([1, 2, 3, 5, 64, 100]))
            for niv in (1, 3):
                n = 8
                gk = gint(nk + (2 * n,), full)
                w = np.array(wn)
                k = dict(g=arr(gk), beta=beta, niv=niv, wn=wn, notation=nt, nk=nk, qs=[list(q) for q in qs])
                key = f'{nk} niv{niv} wn{wn} {nt} full{full}'
                N = int(np.prod(nk))
                q = np.array(qs)
                gen = lambda: bub.BubbleGenerator(w, obj(gk, beta, np.zeros(nk)), freq_notation=nt, is_full_wn=bool(full))
                oth = lambda: bub.BubbleGenerator(w, obj(gk, beta, np.zeros(nk)), freq_notation=NOT[(NOT.index(nt) + 1) % 3], is_full_wn=bool(full))
                rec.run('gchi0q', lambda: dict(out=arr(gen().get_gchi0_q_list(niv, q) * N)), key='get_gchi0_q_list ' + key, **k)
                rec.run('chi0q', lambda: dict(out=arr(gen().get_chi0_q_list(niv, qs) * N * beta)), key='get_chi0_q_list ' + key, **k)
                rec.run('gchi0q', lambda: dict(out=arr(oth().get_gchi0_q_list(niv, qs, freq_notation=nt) * N)), key='get_gchi0_q_list explicit notation ' + key, **k)
                rec.run('chi0q', lambda: dict(out=arr(oth().get_chi0_q_list(niv, q, freq_notation=nt) * N * beta)), key='get_chi0_q_list explicit notation ' + key, **k)
                rec.run('gchi0q', lambda: dict(out=arr(bub.vec_get_gchi0_q(gk, beta, niv, w, qs, nt, bool(full)) * N)), key='vec_get_gchi0_q ' + key, **k)
                rec.run('chi0q', lambda: dict(out=arr(bub.vec_get_chi0_q(gk, beta, niv, w, q, nt, bool(full)) * N * beta)), key='vec_get_chi0_q ' + key, **k)
                kl = dict(k, g=arr(gk.sum(axis=(0, 1, 2))))
                rec.run('gchi0', lambda: dict(out=arr(gen().get_gchi0(niv) * N * N)), key='local of lattice ' + key, **kl)
                if niv == 1:
                    # one generator asked for several windows and notations in turn
                    one = gen()
                    for nv, x in ((3, None), (1, None), (2, NOT[(NOT.index(nt) + 1) % 3]), (2, None), (1, NOT[(NOT.index(nt) + 2) % 3]), (3, None)):
                        kk = dict(k, niv=nv, notation=x or nt)
                        rec.run('gchi0q', lambda: dict(out=arr(one.get_gchi0_q_list(nv, q, x) * N)), key=f'sequence get_gchi0_q_list {nv} {x} ' + key, **kk)
                        rec.run('chi0q', lambda: dict(out=arr(one.get_chi0_q_list(nv, q, x) * N * beta)), key=f'sequence get_chi0_q_list {nv} {x} ' + key, **kk)
                        rec.run('gchi0', lambda: dict(out=arr(one.get_gchi0(nv, x) * N * N)), key=f'sequence get_gchi0 {nv} {x} ' + key, **dict(kk, g=kl['g']))
                        rec.run('chi0', lambda: dict(out=arr(one.get_chi0(nv, x) * N * N * beta)), key=f'sequence get_chi0 {nv} {x} ' + key, **dict(kk, g=kl['g']))
        qs = qs_all
    # legs
    b = bub.BubbleGenerator(np.array([0]), obj(gint((1, 1, 1, 16), 1), 3, np.zeros((1, 1, 1))))
    for sh in [(3, 4), (2, 3, 4), (1, 2), (1, 1, 6)]:
        m = gint(sh, 0)
        rec.run('legs', lambda: dict(inp=arr(m), out=arr(b.contract_legs(m) * 9)), key=f'contract_legs {sh}')
        if len(sh) == 2: rec.run('vvp', lambda: dict(inp=arr(m), out=arr(b.get_gchi0_vvp_full(m))), key=f'get_gchi0_vvp_full {sh}')
    # asymptotics at beta = pi
    Z = 1e6
    ek = rng.randint(-2, 3, size=nk)
    for wn, full in WNS[1:]:
        w = np.array(wn)
        for nt, x in [(a, c) for a in NOT for c in (None, a)]:     # the notation is either the generator's own or given explicitly
            qs = qmix if x else qs_all
            for niv in (3, 8):
                mu, s0, s1 = int(rng.randint(-2, 3)), int(rng.randint(-1, 3)), int(rng.randint(-3, 1))
                mk = lambda: bub.BubbleGenerator(w, obj(gint(nk + (24,), full), np.pi, ek, mu, s0, s1), freq_notation=nt if x is None else NOT[(NOT.index(nt) + 1) % 3], is_full_wn=bool(full))
                e = ek + (0 if ek.sum() ** 2 % ek.size == 0 else 0)
                for loc in (True, False):
                    if loc and ek.sum() ** 2 % ek.size: continue     # the recorded factors have to be integers
                    qq = [] if loc else qs
                    f = (lambda g, name: getattr(g, name)) if False else None

                    def asy():
                        g = mk()
                        if loc: S, E, B, C = g.get_asympt_sum(niv, freq_notation=x), g.get_exact_asymptotics(), g.get_asympt_sum(3000, freq_notation=x), g.get_asymptotic_correction(niv, freq_notation=x)
                        else: S, E, B, C = g.get_asympt_sum_q(niv, qs, freq_notation=x), g.get_exact_asymptotics_q(qs), g.get_asympt_sum_q(3000, qs, freq_notation=x), g.get_asymptotic_correction_q(niv, qs, freq_notation=x)
                        return dict(sum=arr(-np.pi * S, Z, None), exact=arr(E / np.pi, Z, None), big=arr(B / np.pi, Z, None),
                                    corr=arr(C, Z, None), exact0=arr(E, Z, None), sum0=arr(S, Z, None))
                    rec.run('asym', asy, key=f'asymptotics {"local" if loc else "lattice"} {nk} {wn} {nt} {niv}{x and " explicit" or ""}', nk=nk, ek=arr(ek), mu=mu, smom0=s0, smom1=s1,
                            qs=[list(q) for q in qq], wn=wn, niv=niv, notation=nt)

                def tot():
                    g = mk()
                    return dict(total=arr(g.get_chi0(niv, freq_notation=x, do_asympt=True), 1e4, None), core=arr(g.get_chi0(niv, x), 1e4, None), corr=arr(g.get_asymptotic_correction(niv, x), 1e4, None))
                rec.run('total', tot, key=f'total {nk} {wn} {nt} {niv}{x and " explicit" or ""}')

                for nc in (2, niv):
                    def shell():
                        g = mk()
                        core = g.get_chi0_q_list(nc, qs, x)
                        return dict(out=arr(g.get_chi0q_shell(core, nc, niv - nc, qs, freq_notation=x), 1e4, None), full=arr(g.get_chi0_q_list(niv, qs, x), 1e4, None), core=arr(core, 1e4, None),
                                    corr=arr(g.get_asymptotic_correction_q(niv, qs, x), 1e4, None))
                    rec.run('shell', shell, key=f'shell {nk} {wn} {nt} {nc}+{niv - nc}{x and " explicit" or ""}')
# real Green's functions with their own moments: window independence
for beta, u, n_el in [(2.0, 0.0, 1.0), (4.0, 1.0, 0.9), (3.0, 2.0, 1.1)]:
    kx = np.arange(4) * 2 * np.pi / 4
    ek = (-2 * 0.25 * (np.cos(kx)[:, None, None] + np.cos(kx)[None, :, None]) + 0 * np.zeros((1, 1, 1)))
    s0, s1 = twop.get_smom0(u, n_el), twop.get_smom1(u, n_el)
    v = mf.vn(beta, 40)
    sig = (s0 - s1 / (1j * v))[None, None, None, :] * np.ones((1, 1, 1, 1))
    def indep(q):
        g = twop.GreensFunction(twop.SelfEnergy(sig, beta, smom0=s0, smom1=s1, niv_core=20), ek, n=n_el, niv_asympt=500)
        b = bub.BubbleGenerator(mf.wn(3), g, is_full_wn=True)
        if q is None: f = lambda n: b.get_chi0(n, do_asympt=True)
        else: f = lambda n: b.get_chi0_q_list(n, q) + b.get_asymptotic_correction_q(n, q)
        return dict(a=arr(f(40), 1e5, None), b=arr(f(400), 1e5, None))
    for q in (None, [(0, 0, 0), (1, 0, 0), (2, 2, 0)]):
        rec.run('indep', lambda: indep(q), key=f'window independence beta{beta} u{u} {q}', tol=100)
rec.close()
