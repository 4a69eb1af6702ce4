"""Driver (C19): loading of a DMFT calculation.  d_input.py <out> <behaviours> <scratch>"""
import copy, hashlib, io, json, os, sys
import h5py
import numpy as np
from rec import Rec, arr, ints, THOROUGH, SEED
from dcfg import FakeComm
from dga import config, dga_io, w2dyn_aux_dga as w2
rec = Rec(sys.argv[1])
R = np.random.RandomState(SEED + 19)
scratch = sys.argv[3]
os.makedirs(scratch, exist_ok=True)
sys.stdout = io.StringIO()
LAT = dict(type='t_tp_tpp', hr_input=[1.0, -0.2, 0.1], nk=[2, 2, 1], nq=[2, 2, 1], symmetries='two_dimensional_square')
num = [0]


def folder():
    num[0] += 1
    d = os.path.join(scratch, f'f{num[0]}')
    os.mkdir(d)
    return d + '/'


def ci(*sh): return (R.randint(-50, 51, sh) + 1j * R.randint(-50, 51, sh)).astype(complex)


def w2_1p(f, nb, nf, tot, par, it='dmft-last'):
    g, s = ci(nb, 2, nf), ci(nb, 2, nf)
    occ = R.randint(1, 9, (nb, 2, nb, 2)).astype(float)
    with h5py.File(f, 'w') as h:
        c = h.create_group('.config')
        c.attrs['general.beta'], c.attrs['atoms.1.udd'], c.attrs['general.totdens'] = par['beta'], par['u'], tot
        h['dmft-last/mu/value'] = par['mu_dmft']
        for n, x in (('giw', g), ('siw', s), ('occ', occ)): h[f'dmft-last/ineq-001/{n}/value'] = x
        for n in ('giw', 'siw', 'occ'): h[f'dmft-001/ineq-001/{n}/value'] = np.ones(3)       # an earlier iteration
    return g, s, occ


def write(kind, d, W, V):
    """files of the given kind with random content; returns file names, the content"""
    par = dict(beta=float(R.randint(1, 90)), u=float(R.randint(1, 20)), mu_dmft=float(R.randint(-9, 10)))
    n = float(R.randint(1, 9)) / 4
    nf = 2 * R.randint(1, 5)
    g2 = {c: ci(2 * W + 1, 2 * V, 2 * V) for c in ('dens', 'magn')}
    f1, f2 = 'one', 'two'
    if kind in ('default', 'test'):
        giw, siw = ci(nf), ci(nf)
        dd = dict(giw=giw, siw=siw, n=n, g4iw_dens=g2['dens'], g4iw_magn=g2['magn'], **par)
        np.save(d + 'one.npy', dd, allow_pickle=True)
        f1, f2 = 'one.npy', None
    elif kind == 'EDFermion':
        giw, siw = ci(nf), ci(nf)
        with h5py.File(d + f1, 'w') as h:
            h['giw'], h['siw_hat'], h['siw'], h['config/totdens'], h['config/beta'], h['config/U'], h['dmft/mu'] = giw, siw, ci(nf), n, par['beta'], par['u'], par['mu_dmft']
        with h5py.File(d + f2, 'w') as h:
            for c in g2: h['g4iw_' + c] = g2[c]
    else:
        g, s, occ = w2_1p(d + f1, 1 + R.randint(2), nf, [0.0, n][R.randint(2)], par)
        giw, siw = g[0].sum(axis=0) / 2, s[0].sum(axis=0) / 2
        with h5py.File(d + f1, 'r') as h: tot = h['.config'].attrs['general.totdens']
        n = float(tot if tot else occ[0, 0, 0, 0] + occ[0, 1, 0, 1])
        with h5py.File(d + f2, 'w') as h:
            for c in g2:
                for w in range(2 * W + 1):
                    h[f'ineq-001/{c}/{w:05}/00001/value'] = g2[c][w].T
                    h[f'ineq-001/{c}/{w:05}/00004/value'] = ci(2 * V, 2 * V)
    one = dict(giw=arr(giw, 2), siw=arr(siw, 2), par=[int(round(4 * x)) for x in (n, par['beta'], par['u'], par['mu_dmft'])])
    return f1, f2, g2, one


def ones(giw, siw, n, beta, u, mu): return dict(giw=arr(giw, 2), siw=arr(siw, 2), par=[int(round(4 * float(x))) for x in (n, beta, u, mu)])


def digest(d): return {f: hashlib.md5(open(d + f, 'rb').read()).hexdigest() for f in sorted(os.listdir(d)) if os.path.isfile(d + f)}


def twop(beh, kind):
    d = folder()
    W, V = beh['W'], beh['V']
    f1, f2, g2, one = write(kind, d, W, V)
    before = digest(d)

    def go():
        stages = []
        typ, path, a, b = kind, d, f1, f2
        kept = True
        for r in beh['reqs']:
            box = {k: int(v) for k, v in (('niw_core', r['w']), ('niv_core', r['v'])) if v != -1 or R.randint(2)}
            cfg = config.DgaConfig(dict(box_sizes=box, lattice=LAT, dmft_input=dict(type=typ, input_path=path, fname_1p=a, fname_2p=b, do_sym_v_vp=bool(r['sym']))), comm=FakeComm())
            di = dga_io.load_1p_data(cfg.type, cfg.input_path, cfg.fname_1p, cfg.fname_2p)
            try: dens, magn = dga_io.build_g2_obj(cfg, di)
            except ValueError:
                stages.append(dict(rej=True))
                break
            cfg.set_system_parameter(di)
            s = cfg.sys
            stages.append(dict(rej=False, dens=arr(dens.mat, 4), magn=arr(magn.mat, 4), ch=[dens.channel, magn.channel], box=[int(cfg.box.niw_core), int(cfg.box.niv_core)], wn=ints(dens.wn), vn=ints(magn.vn),
                               one=ones(di['giw'], di['siw'], di['n'], di['beta'], di['u'], di['mu_dmft']), sys=ones(s.giw, s.siw, s.n, s.beta, s.u, s.mu_dmft)))
            kept = kept and digest(d) == before
            # stored the way a run stores its input, and loaded by the next one
            cfg.output_path = folder()[:-1]
            cfg.save_data(dga_io.create_dmft_ddict(di, dens, magn), 'dmft_input')
            typ, path, a, b = 'default', cfg.output_path + '/', 'dmft_input.npy', None
        return dict(stages=stages, kept=kept and digest(d) == before)
    rec.run('twop', go, key=f"{kind} W={W} V={V} {beh['reqs']}", W=W, V=V, reqs=beh['reqs'], data={c: arr(g2[c]) for c in g2}, one=one)


behs = json.load(open(sys.argv[2]))
KINDS = ['default', 'EDFermion', 'w2dyn', 'w2dyn', 'test']
ok = [b for b in behs if all(r['v'] <= b['V'] and r['w'] <= b['W'] for r in b['reqs'][:1])]
no = [b for b in behs if b not in ok]
for i in R.permutation(len(ok))[:600 if THOROUGH else 110]: twop(ok[i], KINDS[i % 5])
for i in R.permutation(len(no))[:100 if THOROUGH else 25]: twop(no[i], KINDS[i % 5])
for k in KINDS[:3]:      # larger boxes
    W, V = R.randint(4, 8), R.randint(6, 10)
    twop(dict(W=W, V=V, reqs=[dict(w=int(R.randint(0, W + 1)), v=int(R.randint(1, V + 1)), sym=bool(R.randint(2))), dict(w=-1, v=-1, sym=bool(R.randint(2)))]), k)

# one-particle part alone
for kind in KINDS:
    d = folder()
    f1, f2, g2, one = write(kind, d, 0, 1)

    def go(kind=kind, d=d, f1=f1):
        di = dga_io.load_1p_data(kind, d, f1)
        return dict(got=ones(di['giw'], di['siw'], di['n'], di['beta'], di['u'], di['mu_dmft']))
    rec.run('onep', go, key=f'one-particle {kind}', want=one)
for _ in range(8 if THOROUGH else 3):
    d = folder()
    par = dict(beta=float(R.randint(1, 90)), u=float(R.randint(1, 20)), mu_dmft=float(R.randint(-9, 10)))
    nb, nf, tot = R.randint(1, 4), 2 * R.randint(1, 5), float(R.randint(0, 3))
    g, s, occ = w2_1p(d + 'x', nb, nf, tot, par)

    def go(d=d):
        di = dga_io.load_1p_data('w2dyn', d, 'x')
        return dict(giw=arr(di['giw'], 2), siw=arr(di['siw'], 2), n=int(round(di['n'])), par=[int(di['beta']), int(di['u']), int(di['mu_dmft'])])
    rec.run('w2', go, key=f'w2dyn {nb} bands, totdens {tot}', nf=nf, giwf=arr(g), siwf=arr(s), tot=int(tot), occ=[int(occ[0, 0, 0, 0]), int(occ[0, 1, 0, 1])], parf=[int(par['beta']), int(par['u']), int(par['mu_dmft'])])
for t in ('w2dynamics', 'ed', ''): 
    def go(t=t):
        try: dga_io.load_1p_data(t, scratch + '/', 'x')
        except NotImplementedError: return dict(rej=True)
        return dict(rej=False)
    rec.run('reject', go, key=f'type {t!r}')


# every quantity of a w2dynamics file from its own data set
def getters():
    d = folder()
    names = ['siw-full', 'giw-full', 'g0iw-full', 'siw', 'giw', 'g0iw', 'smom-full', 'dc', 'occ']
    with h5py.File(d + 'x', 'w') as h:
        c = h.create_group('.config')
        c.attrs['general.nat'], c.attrs['qmc.niw'], c.attrs['general.beta'], c.attrs['general.totdens'] = 12, 7, 11.0, 3.0
        for a in range(1, 13): c.attrs[f'atoms.{a}.nd'], c.attrs[f'atoms.{a}.udd'] = a + 1, 10.0 + a
        for it in ('dmft-last', 'dmft-003', 'start'):
            h[f'{it}/mu/value'] = f'{it}/mu'
            h[f'{it}/dc-latt/value'] = f'{it}/dc-latt'
            for a in (1, 2, 12):
                for n in names: h[f'{it}/ineq-{a:03}/{n}/value'] = f'{it}/{a}/{n}'
    f = w2.W2dynFile(d + 'x')
    s = lambda x: x.decode() if isinstance(x, bytes) else str(x)
    rows = []
    for it in (None, 'dmft-last', 'dmft-003', 'start'):
        ki = {} if it is None else dict(dmft_iter=it)
        i = it or 'dmft-last'
        rows += [dict(got=s(f.get_mu(**ki)), want=f'{i}/mu'), dict(got=s(f.get_dc_latt(**ki)), want=f'{i}/dc-latt')]
        for a in (None, 1, 2, 12):
            ka = dict(ki) if a is None else dict(ki, atom=a)
            for n in names: rows.append(dict(got=s(getattr(f, 'get_' + n.replace('-', '_'))(**ka)), want=f'{i}/{a or 1}/{n}'))
    for got, want in ((f.get_niw(), 7), (f.get_natom(), 12), (f.get_nd(), 2), (f.get_nd(atom=2), 3), (f.get_nd(atom=12), 13), (f.get_nd_tot(), 90), (f.get_beta(), 11.0), (f.get_totdens(), 3.0), (f.get_udd(), 11.0), (f.get_udd(atom=2), 12.0), (f.get_udd(atom=12), 22.0)):
        rows.append(dict(got=str(float(got)), want=str(float(want))))
    f.close()
    return dict(rows=rows)


rec.run('get', getters, key='quantities of a w2dynamics file')


def threeleg():
    d = folder()
    with h5py.File(d + 'y', 'w') as h:
        for m in ('worm', 'z'):
            for a in (1, 3):
                for b in (1, 2, 12): h[f'{m}-001/ineq-{a:03}/p3iw-worm/{b:05}/value'] = np.array([[f'{m}{a}{b}{i}{j}'.encode() for j in range(3)] for i in range(2)])
    f = w2.W2dynThreeLeg(d + 'y')
    rows = []
    for kw in [dict()] + [dict(sampling_method=m, ineq=a, spinband=b) for m in ('worm', 'z') for a in (1, 3) for b in (1, 2, 12)]:
        o = f.read_fermi_bose(**kw)
        m, a, b = kw.get('sampling_method', 'worm'), kw.get('ineq', 1), kw.get('spinband', 1)
        rows += [dict(got=str(o.shape), want='(3, 2)')] + [dict(got=o[j, i].decode(), want=f'{m}{a}{b}{i}{j}') for i in range(2) for j in range(3)]
    f.close()
    return dict(rows=rows)


rec.run('get', threeleg, key='three-leg file')


def chi(niw, tot):
    d = folder()
    up, dn = R.randint(-50, 51, 2 * niw + 1).astype(complex), R.randint(-50, 51, 2 * niw + 1).astype(complex)
    with h5py.File(d + 'x', 'w') as h:
        c = h.create_group('.config')
        c.attrs['general.beta'], c.attrs['general.totdens'] = 4.0, tot
        for i, x in ((1, up), (2, dn)): h[f'worm-last/ineq-001/p2iw-worm/{i:05}/value'] = x
    f = w2.W2dynFile(d + 'x')
    r = dict(up=ints(up.real), dn=ints(dn.real), dens=ints(np.rint(f.get_chi(channel='dens').real)), magn=ints(np.rint(f.get_chi(channel='magn').real)))
    f.close()
    return r


for niw in (0, 1, 4):
    for tot in (1.0, 2.0, 0.0, 3.0, 4.0): rec.run('chi', lambda: chi(niw, tot), key=f'susceptibility niw={niw} totdens={tot}', tot=int(tot))


# two-particle files: several atoms, channels and bands; entries are injective codes of their place
def g4code(a, ch, k, w, v, y): return ((((a * 3 + (ch == 'magn')) * 3 + k) * 16 + w) * 12 + v) * 12 + y


def g4(niw, niv, iws):
    d = folder()
    with h5py.File(d + 'x', 'w') as h:
        for a in (1, 2):
            for ch in ('dens', 'magn'):
                for k in (1, 2):
                    n = niw if (a, k) == (1, 1) else niw + 1       # boxes of different size
                    for i in range(2 * n + 1):
                        x = np.array([[g4code(a, ch, k, i - n, v, y) for v in range(-niv, niv)] for y in range(-niv, niv)], dtype=complex)      # stored transposed
                        h[f'ineq-{a:03}/{ch}/{i:05}/{k:05}/value'] = x + 1j * (x + 1)
    f = w2.W2dynG4iwFile(d + 'x')
    rows = []
    for a in (1, 2):
        for ch in ('dens', 'magn'):
            for k in (1, 2):
                kw = dict(ineq=a, channel=ch, spinband=k)
                n = niw if (a, k) == (1, 1) else niw + 1
                base = dict(a=a, ch=int(ch == 'magn'), k=k)
                allw = list(range(-n, n + 1))
                rows.append(dict(base, iw=allw, nv=niv, val=arr(f.read_g2_full(**kw)), n=int(f.get_niw(**kw))))
                rows.append(dict(base, iw=allw, nv=niv, val=arr(f.read_g2(niw=n, niv=niv, **kw)), n=int(f.get_niw(**kw))))
                for iw in iws: rows.append(dict(base, iw=list(iw), nv=niv, val=arr(f.read_g2_iw(iw=np.array(iw), **kw)), n=int(f.get_niw(**kw))))
    d = dict(a=1, ch=0, k=1, iw=list(range(-niw, niw + 1)), nv=niv, val=arr(f.read_g2_full(channel='dens')), n=int(f.get_niw(channel='dens')))     # defaults
    f.close()
    return dict(rows=rows + [d], niw=niw)


for niw in (0, 1, 2, 3):
    for niv in (1, 2, 3): rec.run('g4', lambda: g4(niw, niv, [[0], list(range(-niw, niw + 1)), [niw, -niw, 0], [-niw]]), key=f'two-particle file {niw} {niv}')


def onep_w2(full):
    d = folder()
    nf, nb = 6, 1
    g, s, occ = w2_1p(d + 'x', nb, nf, 1.5, dict(beta=8.0, u=3.0, mu_dmft=2.0))
    if full:
        gf, sf = ci(1, 2, 1, 2, nf), ci(1, 2, 1, 2, nf)
        for x in (gf, sf): x[0, 0, 0, 1], x[0, 1, 0, 0] = 0, 0
        with h5py.File(d + 'x', 'a') as h: h['dmft-last/ineq-001/giw-full/value'], h['dmft-last/ineq-001/siw-full/value'] = gf, sf
        g, s = (np.array([[x[0, 0, 0, 0], x[0, 1, 0, 1]]]) for x in (gf, sf))
    f = w2.W2dynFile(d + 'x')
    r = f.load_dmft1p_w2dyn()
    f.close()
    return dict(nf=nf, giw=arr(r['gloc'], 2), siw=arr(r['sloc'], 2), giwf=arr(g), siwf=arr(s), rest=[int(round(4 * float(np.asarray(r[k]).item()))) for k in ('beta', 'u', 'mu', 'n', 'niv', 'hartree')])


for full in (False, True): rec.run('w2all', lambda: onep_w2(full), key=f'one-particle summary full={full}')
rec.close()
