"""Driver (C14): linearized Eliashberg equation.  d_eliash.py <out> <behaviours.json>"""
import json, sys
import os
import dcfg
import numpy as np
from rec import Rec, THOROUGH, SEED, arr, warr as farr, ints, BAD
from objs import obj
from dga import eliashberg_equation as eq, config, brillouin_zone as bz, two_point as twop
rec = Rec(sys.argv[1])
R = np.random.RandomState(SEED + 14)
N1 = 4
P = dict(even=np.array([[.5, .5], [.5, .5]]), odd=np.array([[.5, -.5], [-.5, .5]]))


def vertex(tab, nk):
    """kernel eigenvalue tab[class][parity] for the harmonics of the class (inversion symmetric), constant along z"""
    g = np.zeros(nk + (2, 2), dtype=complex)
    q = 2 * np.pi * np.arange(N1) / N1
    har = dict(s=np.ones((N1, N1)), x=2 * np.cos(q)[:, None] + 0 * q[None, :], y=2 * np.cos(q)[None, :] + 0 * q[:, None])
    for c in 'sxy':
        for p in ('even', 'odd'):
            g += tab[c][p] * np.rint(har[c])[:, :, None, None, None] * P[p]
    return g


def gf(nk):
    """|G|^2 = 5 everywhere, G(-v) = conj G(v)"""
    s = R.choice([1 + 2j, 2 + 1j, 1 - 2j, -2 + 1j, -1 - 2j], nk)
    return np.stack((np.conj(s), s), axis=-1)


meshes = [(N1, N1, 1)] * 4 + [(N1, N1, 2)]
gridof = lambda nk: [2 * np.pi * np.arange(n) / n for n in nk]
rl = lambda x, s=1e4: int(np.rint(np.real(x) * s)) if np.isfinite(x) and abs(x) < 1e4 else BAD


wl = lambda x: rl(x, 2 ** 20) if np.isfinite(x) and abs(x) < 1000 else BAD


def norm1(g): return g / g.flat[np.argmax(np.abs(g))]


behs = json.load(open(sys.argv[2]))
uniq = sorted({json.dumps(b, sort_keys=True) for b in behs})
pick = uniq if len(uniq) < 900 else [uniq[i] for i in sorted(R.permutation(len(uniq))[:(5000 if THOROUGH else 700)])]
for i, bj in enumerate(pick):
    b = json.loads(bj)
    sc = (1, 8)[i % 2]     # eigenvalues in units of 1 or 1/8
    nk = meshes[(i // 2) % 5]
    gam, gk = vertex(b['tab'], nk), gf(nk)
    np.random.seed(SEED + i)
    name = f"{b['tab']} start {b['start']} shift {b['use']} unit 1/{sc} mesh {nk}".replace("'", '').replace(' ', '')

    def go():
        g0 = eq.get_gap_start(shape=gk.shape, k_type=b['start'][0], v_type=b['start'][1], k_grid=gridof(nk))
        ins = [gam.copy(), gk.copy(), g0.copy()]
        p = eq.EliashberPowerIteration(gamma=gam, gk=gk, gap0=g0, norm=16 * nk[2] * 5. * sc, eps=1e-9 / sc, max_count=3000, **({} if b['use'] and i % 3 else dict(shift_mat=b['use'], n_eig=1)))
        same = all(np.array_equal(x, y) for x, y in zip(ins, (gam, gk, g0)))
        return dict(n=len(p.lam), lam=rl(sc * p.lam[0]), im=rl(sc * np.imag(p.lam[0])), gap=farr(norm1(p.gap[0])), same=bool(same))
    rec.run('diag', go, key=name, gam2=arr(2 * gam), tab=b['tab'], start=b['start'], use=b['use'])

# through the routine of the main program
CFG = {}


def real(nk):
    """a real configuration with niv_pp = 1 on the mesh"""
    if nk not in CFG: CFG[nk] = dcfg.make(os.path.join(os.path.dirname(os.path.abspath(sys.argv[1])), f'c{len(CFG)}'), dict(niw_core=2, niv_core=3, niv_shell=1), nk, symmetries='none', sysp=dict(beta=5.0))
    assert CFG[nk].box.niv_pp == 1
    return CFG[nk]


KS = ['d-wave', 'p-wave-x', 'p-wave-y', 'random']
for i in range(400 if THOROUGH else 120):
    tab = {c: {p: int(R.choice([-3, -2, -1, 1, 2, 3])) for p in ('even', 'odd')} for c in 'sxy'}
    ksym, ch = KS[i % 4], ('sing', 'trip')[(i // 4) % 2]
    symf = [bool(R.randint(2)), bool(R.randint(2))]
    shift = bool(R.randint(4))
    sc = (1, 8)[(i // 8) % 2]
    nk = meshes[(i // 3) % 5]
    gam, gk = vertex(tab, nk), gf(nk)
    np.random.seed(SEED + i)
    ec = config.EliashbergConfig({'k_sym': ksym, 'sym_sing': symf[0], 'sym_trip': symf[1], 'n_eig': 1, 'eps': 1e-9 / sc, 'max_count': 3000})

    def go():
        asked = []
        def load(nm):
            asked.append(nm)
            return -gam.copy()
        ec.load_data = load
        big = np.concatenate((np.full(nk + (3,), 7 + 1j), gk, np.full(nk + (3,), 7 - 1j)), axis=-1)
        cfg = real(nk)
        cfg.eliash, cfg.sys.beta, cfg.verbosity = ec, 5.0 * sc, 0
        ec.output_path = cfg.output_path
        g = obj(big, 5.0 * sc, np.zeros(nk), nc=4)
        p = eq.linear_eliashberg(cfg, g, ch, **({} if shift and i % 3 == 0 else dict(shift_mat=shift)))  # shifting is the default
        return dict(lam=rl(sc * p.lam[0]), im=rl(sc * np.imag(p.lam[0])), gap=farr(norm1(p.gap[0])), asked=asked, n=len(p.lam))
    rec.run('lin', go, key=f"{tab} {ksym} {ch} sym{symf} shift{shift} unit 1/{sc} mesh {nk}".replace("'", '').replace(' ', ''), tab=tab, ksym=ksym, channel=ch, symf=symf, use=shift, gam2=arr(2 * gam),
            start=[ec.gap0_sing if ch == 'sing' else ec.gap0_trip][0] and [str(x) for x in (ec.gap0_sing if ch == 'sing' else ec.gap0_trip).values()])

# starting gaps at momenta that are multiples of a quarter turn: integers
quarter = [([0, 1, 2, 3], [0, 1, 2, 3], [0]), ([0, 1, 2, 3], [0, 2], [0]), ([0, 2], [0, 1, 2, 3], [0, 1, 2]), ([0], [0, 1, 2, 3], [0, 2]),
           ([-2, -1, 0, 1], [-2, -1, 0, 1], [0]), ([1, 2, 3, 4, 5, 6], [0, 1], [0]), ([0, 1, 2], [3], [0, 2]), ([0], [0], [0]), ([0, 1, 3], [0, 1, 2, 1, 0], [0, 1, 2, 3])]
for k_type in KS:
    for v_type in ('even', 'odd', 'random'):
        for niv in (1, 2, 3):
            for turns in quarter if 'random' not in (k_type, v_type) else quarter[:3]:
                def go():
                    np.random.seed(SEED + niv)
                    g = eq.get_gap_start(shape=tuple(len(t) for t in turns) + (2 * niv,), k_type=k_type, v_type=v_type, k_grid=[np.pi / 2 * np.array(t) for t in turns])
                    return dict(gap=arr(g) if 'random' not in (k_type, v_type) else farr(g))
                rec.run('start', go, key=f'start {k_type} {v_type} {niv} {turns}', k=k_type, v=v_type, niv=niv, turns=[[int(t) % 4 for t in x] for x in turns])
for n in (1, 2, 3):
    for mesh in ((2, 1, 2), (3, 2, 1), (1, 1, 3), (1, 1, 1)):
        for ch in ('sing', 'trip'):
            def go():
                g = R.randint(-9, 10, mesh + (2 * n, 2 * n)) + 1j * R.randint(-9, 10, mesh + (2 * n, 2 * n))
                g0 = g.copy()
                o = eq.symmetrize_gamma(g, ch)
                return dict(inp=arr(g0), out=arr(2 * o), same=bool(np.array_equal(g, g0)))
            rec.run('sym', go, key=f'symmetrize {n} {ch} {mesh}', channel=ch)

# projections: onto one vector, off a set of vectors, off a set of eigenvectors
for j in range(8 if THOROUGH else 4):
    sh = [(3,), (2, 1, 2), (1, 2, 1, 2), (5,)][j % 4]
    vec = lambda: R.randint(-5, 6, sh) + 1j * R.randint(-5, 6, sh)
    v, bs = vec(), [vec() + 6 for _ in range(1 + j % 3)]
    nn = [int(np.rint(np.sum(np.abs(b) ** 2))) for b in bs]
    lam = [int(x) for x in R.randint(-4, 5, len(bs))]

    def go():
        keep = v.copy()
        gs = [f(v, [b]) * n for b, n in zip(bs, nn) for f in (eq.gram_schmidt, lambda x, y: eq.gram_schmidt_eliash(x, y, None))]
        pr = [f(v, b) * n for b, n in zip(bs, nn) for f in (eq.proj, lambda x, y: eq.proj_eliash(x, y, None))]
        two = [arr(f(v, bs), 1000, None) for f in (eq.gram_schmidt, lambda x, y: eq.gram_schmidt_eliash(x, y, None))]
        return dict(gs=[arr(np.ravel(x)) for x in gs], pr=[arr(np.ravel(x)) for x in pr], two=[dict(t, sh=[v.size]) for t in two], rm=arr(np.ravel(eq.remove_prev_eigenvals(v, bs, lam))), same=bool(np.array_equal(v, keep)))
    rec.run('proj', go, key=f'projections {j}', v=arr(np.ravel(v)), b=[arr(np.ravel(b)) for b in bs], lam=lam)


# general hermitian kernels: residual of the gap equation, Rayleigh quotients of witness vectors
def general(key, seed, uniform, n_eig, mesh, nv, herm=True):
    r = np.random.RandomState(seed)
    while True:
        g = r.uniform(-1, 1, mesh + (nv, nv)) + 1j * r.uniform(-1, 1, mesh + (nv, nv))
        if not herm: g = r.uniform(0, 1, mesh + (nv, nv)) + 0j
        if herm: g = 0.5 * (g + np.conj(np.swapaxes(g, -1, -2)))
        g = 0.5 * (g + np.roll(np.flip(g, (0, 1, 2)), (1, 1, 1), (0, 1, 2)))
        gk = r.uniform(0.5, 1.5, mesh + (nv,)) * np.exp(2j * np.pi * r.uniform(size=mesh + (nv,)))
        if uniform: gk = gk / np.abs(gk)
        M = int(np.prod(mesh)) * nv
        norm = 2.0
        G = np.zeros((M, M), dtype=complex)
        ks = list(np.ndindex(*mesh))
        for a, k in enumerate(ks):
            for c, kp in enumerate(ks): G[a * nv:(a + 1) * nv, c * nv:(c + 1) * nv] = g[tuple((np.array(k) - kp) % mesh)]
        s = np.abs(gk).ravel()
        if not herm:
            e = np.linalg.eigvals(G * s[None, :] ** 2 / norm)
            m = np.argsort(-np.abs(e))
            if abs(e[m[1]] / e[m[0]]) > 0.85 or abs(e[m[0]].imag) > 1e-9: continue
            ev = None
        else:
            ev, X = np.linalg.eigh(s[:, None] * G * s[None, :] / norm)
            mag = np.sort(np.abs(ev))[::-1]
            sh = min(ev[0], 0) if -ev[0] > ev[-1] else 0
            e2 = np.sort(np.abs(ev - sh))[::-1]
            if mag[1] / mag[0] > 0.93 or any(e2[j + 1] / e2[j] > 0.97 for j in range(min(max(n_eig, 2), len(e2) - 1))) or abs(ev).max() > 5: continue
        break
    np.random.seed(seed)

    def go():
        g0 = np.random.random_sample(mesh + (nv,)) + 0j
        p = eq.EliashberPowerIteration(gamma=g, gk=gk, gap0=g0, norm=norm, eps=1e-11, max_count=20000, shift_mat=herm, n_eig=n_eig)
        out = dict(n=len(p.lam), lams=[wl(x) for x in p.lam], gaps=[farr(norm1(x)) for x in p.gap])
        wit = []
        if ev is not None:
            for j in [*np.argsort(-np.abs(ev - sh))[:max(n_eig, 2)], 0]:
                x = (X[:, j] / s).reshape(mesh + (nv,))
                wit.append(farr(x))
        out['wit'], out['shift'] = wit, wl(p.lam_s) if p.lam_s is not None else 0
        return out
    rec.run('pair', go, key=key, gam=farr(g), gk=farr(gk), norm=2, mesh=list(mesh), herm=herm, uniform=uniform, shifted=bool(ev is not None and sh < 0))


for i in range(24 if THOROUGH else 8):
    mesh, nv = (((3, 1, 1), 4), ((2, 2, 1), 2), ((3, 2, 1), 2), ((1, 1, 1), 4), ((2, 1, 3), 2), ((1, 3, 2), 2), ((1, 1, 4), 2), ((2, 2, 2), 2))[i % 8]
    general(f'leading pair of a random hermitian kernel {i}', SEED * 1000 + i, False, 1, mesh, nv)
    general(f'leading pair of a random kernel {i}', SEED * 1000 + 500 + i, False, 1, mesh, nv, herm=False)
    general(f'two pairs, uniform |G| {i}', SEED * 1000 + 100 + i, True, 2, mesh, nv)
    if i < (24 if THOROUGH else 4): general(f'several pairs, uniform |G| {i}', SEED * 1000 + 200 + i, True, min(3 + i % 2, int(np.prod(mesh)) * nv - 1), mesh, nv)
# fixed inputs (independent of the seed): see known_findings.json
for i in range(3): general(f'two pairs, momentum-dependent |G|, input {i}', 7000 + i, False, 2, ((3, 1, 1), (2, 2, 1), (3, 2, 1))[i], 2)
rec.close()
