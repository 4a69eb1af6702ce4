"""Driver (C04, C24): whole runs of the real main program under mpirun.  d_run.py <trace> <scratch> <c04|c24>"""
import hashlib, json, os, shutil, signal, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
import numpy as np
from ruamel.yaml import YAML
from rec import Rec, THOROUGH, SEED, arr
import dgain
HERE = os.path.dirname(os.path.abspath(__file__))
SQ, XY = 'two_dimensional_square', ['x-inv', 'y-inv', 'x-y-sym']
OPT = dict(do_bubble=True, do_vertex=True, niv_bubble=8, niw_bubble=2)


def digest(path):
    with open(path, 'rb') as f: return hashlib.sha1(f.read()).hexdigest()[:12]


def listing(top):
    """every file below top (relative, as components) with its content"""
    out = {}
    for d, _, fs in os.walk(top):
        for f in fs: out[os.path.relpath(os.path.join(d, f), top)] = digest(os.path.join(d, f))
    return out


def numbers(path):
    """numeric content of a result file: {name: array}"""
    if path.endswith('.txt'):
        try: return {'': np.atleast_1d(np.loadtxt([l.replace(',', ' ') for l in open(path)]))}
        except ValueError: return {}
    if not path.endswith('.npy'): return {}
    a = np.load(path, allow_pickle=True)
    if a.dtype != object: return {'': a}
    d, out = a.item() if a.shape == () else {'': a}, {}
    for k, v in (d.items() if isinstance(d, dict) else []):
        try: x = np.array(v, dtype=complex)
        except (TypeError, ValueError): continue
        out['.' + str(k)] = x
    return out


def one(tag, indir, prefix, n, limit):
    """one run on n ranks; returns (exception text, records per rank, folder, files before/after)"""
    before = listing(indir)
    cmd = ['mpirun', '-n', str(n), sys.executable, '-W', 'ignore', os.path.join(HERE, 'run_main.py'), prefix, indir]
    env = dict(os.environ, TMPDIR=os.path.dirname(prefix), OMPI_MCA_orte_tmpdir_base=os.path.dirname(prefix))
    p = subprocess.Popen(cmd, cwd=indir, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
    try: o, _ = p.communicate(timeout=limit); rc = p.returncode
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL); o, _ = p.communicate(); rc = 'timeout'
    recs, exc = [], ''
    for r in range(n):
        fn = f'{prefix}.r{r}'
        if os.path.exists(fn):
            with open(fn) as f: recs.append(json.load(f))
        else: recs.append(None)
    for r in recs:
        if r is not None and r['exc'] and not exc: exc = r['exc']
    if not exc and (rc != 0 or None in recs):
        at = [open(f'{prefix}.at{r}').read() if os.path.exists(f'{prefix}.at{r}') else '-' for r in range(n)]
        exc = ('a rank never left: ' if rc == 'timeout' else f'run ended with {rc}: ') + '; '.join(at) + ' ' + o[-300:]
    after = listing(indir)
    return exc.replace('"', "'").replace('\\', '/').replace('\n', ' ')[:400], recs, before, after, o


def accesses(recs):
    """(sequence of collectives per rank, accesses with the number of collectives before them)"""
    colls, acc = [], []
    for r, x in enumerate(recs):
        cs, last = [], None
        for no, e in enumerate(x['ev']):
            if e['t'] == 'coll':
                cs.append(dict(name=e['name'], root=e['root'])); last = None
            else:
                k = (e['kind'], e['path'])
                if k == last: continue
                last = k
                acc.append(dict(rank=r, at=len(cs), no=no, kind=e['kind'], path=e['path'].strip('/').split('/') if not e['path'].startswith('/') else ['/'] + e['path'].split('/')[1:], dir=None))
        colls.append(cs)
    for a in acc: a['dir'] = a['path'][:-1]
    return colls, acc


def scaled(a, b, exact_txt):
    """two arrays on a common integer scale (the largest entry is 1e8; text files keep their printed digits)"""
    m = max(float(np.max(np.abs(a))) if a.size else 0.0, 1e-6)
    s = 1e6 if exact_txt else 1e8 / m
    return arr(np.asarray(a, dtype=complex), s, None), arr(np.asarray(b, dtype=complex), s, None)


def runs(tag, par, ranks, limit=150, refuse=()):
    """all runs of one input: the same folder for every rank count, one after the other"""
    indir = os.path.join(sys.argv[2], tag, 'in'); rdir = os.path.join(sys.argv[2], tag, 'rec')
    os.makedirs(indir); os.makedirs(rdir)
    ref = dgain.Ref(par)
    ref.write(indir)
    with open(os.path.join(indir, 'dga_config.yaml'), 'w') as f: YAML().dump(ref.config(indir), f)
    out = []
    for n in list(ranks) + list(refuse):
        exc, recs, before, after, o = one(tag, indir, os.path.join(rdir, f'n{n}'), n, limit)
        new = sorted({f.split('/')[0] for f in after if f not in before})
        folder = new[0] if len(new) == 1 else ''
        num = {}
        if folder and not exc:
            for f in sorted(x for x in after if x.startswith(folder + '/')):
                for k, v in numbers(os.path.join(indir, f)).items(): num[f[len(folder) + 1:] + k] = v
        out.append(dict(n=n, exc=exc, recs=recs, before=before, after=after, new=new, folder=folder, num=num, refuse=n in refuse))
        if exc and n not in refuse: break
    return ref, out


def pool(jobs, workers=4):
    with ThreadPoolExecutor(workers) as ex:
        fs = {t: ex.submit(runs, t, *a, **k) for t, a, k in jobs}
        return {t: f.result() for t, f in fs.items()}


def comps(files): return [f.split('/') for f in sorted(files)]


def outputs(rec, key, ref, x):
    """the files a run left, with the switches it ran with"""
    p, o = ref.p, ref.p['optics'] or {}
    c = dict(vrg=p['save_vrg'], fq=p['save_fq'], keeppv=p['keep_pv'], keepfq=p['keep_fq'], pv=p['eliash'], el=p['eliash'] and p['gapeq'], opt=p['optics'] is not None, bub=o.get('do_bubble', False), vert=o.get('do_vertex', False),
             cont='max_ent' in o, poly=p['poly'], keep=p['keep'])
    rec.emit(op='outputs', key=key + ' outputs', n=x['n'], c={k: bool(v) for k, v in c.items()}, files=comps(f[len(x['folder']) + 1:] for f in x['after'] if x['folder'] and f.startswith(x['folder'] + '/')))


if sys.argv[3] == 'c04':
    rec = Rec(sys.argv[1])
    jobs = [('full', (dict(nk=(4, 4, 1), eliash=True, optics=OPT, save_fq=True, keep_fq=True, poly=True), (1, 3, 6, 2)), dict(refuse=(7,))),
            ('coarse', (dict(nk=(4, 4, 1), nq=(2, 2, 1), optics=dict(OPT, max_ent=dict(nwr=41, wmax=9., err=5e-2)), lam='sp', shell=0, seed=2), (1, 3, 2)), {}),
            ('thick', (dict(nk=(2, 2, 2), sym=['z-inv'], seed=11, niw=2, niv=4, poly=True, optics=dict(do_bubble=True)), (1, 5)), {}),
            ('plain', (dict(nk=(3, 3, 1), sym=[], lam='none', seed=3, niw=3, niv=3, save_vrg=False, keep=True), (1, 4, 9)), {}),
            ('flat', (dict(nk=(2, 2, 1), hr=(0.0, 0.0, 0.0), seed=4, mu=0.3, optics=dict(do_vertex=True), eliash=True, keep_pv=False), (1, 2)), dict(refuse=(4,)))]
    if THOROUGH:
        jobs += [('big', (dict(nk=(6, 6, 1), niw=5, niv=6, shell=4, eliash=True, save_fq=True, optics=OPT, keep_pv=False, seed=5), (1, 2, 5, 7, 10)), {}),
                 ('nem', (dict(nk=(4, 6, 1), sym=['x-inv', 'y-inv'], hr=(1.0, 0.1, 0.3), seed=6, eliash=True), (1, 4, 9)), {}),
                 ('cube', (dict(nk=(2, 2, 2), sym=[], seed=7, niw=2, niv=5, optics=dict(do_bubble=True)), (1, 5, 8)), {}),
                 ('even', (dict(nk=(4, 4, 1), nq=(4, 2, 1), sym=['x-inv', 'y-inv'], lam='sp', seed=8, save_fq=True), (1, 2, 3, 4, 5, 6)), {}),
                 ('one', (dict(nk=(1, 1, 1), sym=[], hr=(0.1, 0.0, 0.0), mu=0.3, lam='none', seed=9), (1,)), {}),
                 ('all', (dict(nk=(4, 4, 1), sym=SQ, seed=10, eliash=True, optics=OPT, save_fq=True), (1, 2, 3, 4, 5, 6)), {})]
    res = pool(jobs, 4)
    for tag, _, _ in jobs:
        ref, out = res[tag]
        base = out[0]
        for x in out:
            n, key = x['n'], f'{tag} on {x["n"]} ranks'
            if x['refuse']:
                rec.emit(op='refuse', key=key + ' refused', raised=bool(x['exc']) and 'never left' not in x['exc'], before=comps(x['before']), after=comps(x['after']))
                continue
            bad = [f for f in x['before'] if x['after'].get(f) != x['before'][f]]
            rec.emit(op='run', key=key, exc=x['exc'])
            if x['exc']: continue
            colls, acc = accesses(x['recs'])
            rec.emit(op='proto', key=key + ' protocol', n=n, colls=colls, acc=acc, inputs=comps(x['before']), new=x['new'])
            mine = sorted(f[len(x['folder']) + 1:] for f in x['after'] if f.startswith(x['folder'] + '/'))
            one_ = sorted(f[len(base['folder']) + 1:] for f in base['after'] if f.startswith(base['folder'] + '/'))
            rec.emit(op='files', key=key + ' files', n=n, keep=bool(ref.p['keep']), files=[f for f in mine if 'Rank' not in f], one=[f for f in one_ if 'Rank' not in f],
                     rank=[f for f in mine if 'Rank' in f], expect=[f'QRank{r:05d}.hdf5' for r in range(n)], changed=bad, values=sorted(x['num']), onev=sorted(base['num']))
            outputs(rec, key, ref, x)
            if x is base: continue
            for f in sorted(set(x['num']) & set(base['num'])):
                a, b = base['num'][f], x['num'][f]
                if a.shape == b.shape: a, b = scaled(a, b, '.txt' in f)
                else: a, b = arr(a, 1, None), arr(b, 1, None)
                rec.emit(op='same', key=f'{key} {f}', txt='.txt' in f, a=a, b=b)
    rec.close()
    sys.exit(0)

# ---------------------------------------------------------------------------------------------------------- C24
W = 2 ** 20


def wide(a):
    d = arr(np.asarray(a, dtype=complex), W, None)
    for k in ('re', 'im'): d[k] = [x if abs(x) < 2 ** 24 else 2147480000 for x in d[k]]
    return d


vn_ = dgain.vn


def wi(x): return int(np.rint(float(x) * W))


def result(num, name):
    for k in (name, 'Eliashberg/' + name, 'Optics/' + name):
        for e in ('.npy', '.txt'):
            if k + e in num: return k + e
    return None


def ladder(rec, key, ref, x, o):
    """everything the equations of one run relate: input, witnesses, the files of the run"""
    p, num, nw, nv, full, b = ref.p, x['num'], ref.niw, ref.niv, ref.full, ref.beta
    M, e, wn = full + nw, p['extra'], range(-nw, nw + 1)
    q = lambda n: num[n + '.npy']
    iv = np.pi * (2 * np.arange(-M, M) + 1) / b
    g = ref.win(ref.G, M)
    t, z, f, lad = {}, {}, [], {}
    for ch, ur in (('dens', ref.u), ('magn', -ref.u)):
        tt, zz = [], []
        for i, w in enumerate(wn):
            T = np.linalg.inv(np.diag(1 / ref.x0(full, w)) + ur / b ** 2)
            s = ref.shell
            Tc = T[s:s + 2 * nv, s:s + 2 * nv]
            g2 = ref.input['g4iw_' + ch][e + i, e:e + 2 * nv, e:e + 2 * nv]
            if p['symv']: g2 = (g2 + g2.T) / 2
            gx = b * g2 - (2 * b * np.outer(ref.win(ref.gl, nv), ref.win(ref.gl, nv)) if ch == 'dens' and w == 0 else 0)
            tt.append(T); zz.append(np.linalg.solve(Tc, gx))
            if ch == 'magn':
                gu = np.full((2 * full, 2 * full), -ref.u / b ** 2, dtype=complex)
                gu[s:s + 2 * nv, s:s + 2 * nv] = q('gamma_magn')[i]
                f.append(np.linalg.solve(np.eye(2 * full) + gu @ np.diag(ref.x0(full, w)), gu))
        t[ch], z[ch] = np.array(tt), np.array(zz)
    k2 = ('dens', 'magn')
    def case():
        return dict(nk=list(p['nk']), nq=list(p['nq']), qs=[list(a) for a in ref.qk], wn=list(wn), nv=nv, sh=ref.shell, M=M, b=wi(b), ib=wi(1 / b), ib2=wi(1 / b ** 2), u=wi(ref.u), n=wi(ref.n), mu=wi(p['mu']),
                    lamtype=p['lam'], symv=p['symv'], extra=e, iv=[wi(a) for a in iv], ek=wide(ref.ek), siw=wide(ref.s(np.arange(-M, M))), g=wide(g),
                    g2={c: wide(ref.input['g4iw_' + c]) for c in k2}, gam={c: wide(q('gamma_' + c)) for c in k2}, t={c: wide(t[c]) for c in k2}, z={c: wide(z[c]) for c in k2},
                    vl={c: wide(ref.vloc[c]) for c in k2}, chil={c: wide(q(f'chi_{c}_loc')) for c in k2}, vrg={c: wide(q(f'vrg_q_{c}')) for c in k2},
                    rep=[int(a) for a in x['rep']], lad={c: wide(ref.lad[c]) for c in k2}, chi={c: wide(q(f'chi_{c}_lam').reshape(len(ref.qk), -1)) for c in k2},
                    lam=[wi(a) for a in num['lambda.txt']], f=wide(np.array(f)), sde=wide(q('siw_sde_full')), siwk=wide(q('siwk_dga')),
                    giwk=wide(ref.win(q('giwk_dga'), full)), munew=wi(num['mu.txt'][0]), flat=not any(p['hr']))
    rec.run('ladder', case, key=key + ' equations')


def derived(rec, key, ref, x):
    """what a run derives from its susceptibilities, self-energies and pairing vertices"""
    p, num, b, full = ref.p, x['num'], ref.beta, ref.full
    f6 = lambda a: wi(a)
    nq, nk = tuple(p['nq']), tuple(p['nk'])
    nu = vn_(b, np.arange(full))

    def static():
        e2 = float(np.mean(ref.ek ** 2))
        f3 = (p['mu'] - ref.m0) ** 2 + e2
        chi = {c: num[f'chi_{c}_lam.npy'][0, 0, 0, ref.niw].real for c in ('dens', 'magn')}
        return dict(m=full, nu=[f6(a) for a in nu], r=[f6(1 / a) for a in nu], b=f6(b), ib=f6(1 / b), f2=f6(f3 - ref.m1), f3=f6(f3), chi=[f6(chi['dens']), f6(chi['magn'])],
                    got=[f6(a) for a in np.ravel(num['UniformStaticSusceptibility.txt'])])
    rec.run('static', static, key=key + ' uniform static susceptibility')

    def oz():
        a, xi = np.ravel(num['oz_coeff.txt'])
        chi = num['chi_magn_lam.npy'][..., ref.niw].real
        d2 = sum(np.meshgrid(*[(2 * np.pi * np.arange(m) / m - c) ** 2 for m, c in zip(nq, (np.pi, np.pi, 0.))], indexing='ij'))
        failed = [a, xi] == [-1, -1]
        try:
            from scipy import optimize
            fits = bool(np.all(np.isfinite(optimize.curve_fit(lambda d, a, xi: a / (xi ** -2 + d), d2.ravel(), chi.ravel(), p0=(chi.max(), 2.))[0])))
        except (RuntimeError, TypeError): fits = False
        if failed: a, xi = float(np.max(chi)), 2.
        o = []
        for fa, fx in ((1, 1), (1.03, 1), (.97, 1), (1, 1.03), (1, .97), (1.02, 1.02), (.98, .98), (1.02, .98), (.98, 1.02)):
            x2 = (xi * fx) ** 2
            o.append(dict(amp=f6(a * fa * x2), x2=f6(x2), y=[f6(1 / (1 + x2 * t)) for t in d2.ravel()]))
        return dict(few=bool(chi.size < 2), failed=failed, fits=fits, trials=o, d2=[f6(t) for t in d2.ravel()], chi=[f6(t) for t in chi.ravel()], judged=bool(xi ** 2 < 15 and abs(a) * xi ** 2 < 15))
    rec.run('oz', oz, key=key + ' Ornstein-Zernike fit')

    if p['optics'] and 'max_ent' in p['optics']:
        from dga import analytic_continuation as acont
        me = dict(p['optics']['max_ent'])
        if me.get('n_fit') == -1: me['n_fit'] = ref.wc
        get = lambda k: num.get(f'Optics/{k}.npy', np.zeros(1))
        cb = get('chijj_bubble')
        cv = get('chijj_vert') if p['optics'].get('do_vertex') else np.zeros(1)
        h = max(cb.size, cv.size) // 2
        tot = np.array([sum(c[c.size // 2 + i] for c in (cb, cv) if abs(i) <= c.size // 2) for i in range(-h, h + 1)])
        for k, data in (('sigma_bubble_cont', cb), ('sigma_full_cont', tot), ('w', None)):
            ctl = acont.MaxEnt(b, 'freq_bosonic', **me)
            want = ctl.w if data is None else ctl.cont_single_ind(data)
            y = get(k)
            if want.shape == y.shape: a1, b1 = scaled(want, y, False)
            else: a1, b1 = arr(want, 1, None), arr(y, 1, None)
            rec.emit(op='ref', key=f'{key} optics continuation {k}', txt=False, a=a1, b=b1)
    if p['poly'] and (p['n_fit'], p['o_fit']) in FITS:
        n, o = p['n_fit'], p['o_fit']
        iv = vn_(b, np.arange(n))
        pos = lambda a: a[..., a.shape[-1] // 2:a.shape[-1] // 2 + n]
        for name, data, shift in (('Giwk_dmft', ref.G, False), ('Giwk_dga', num['giwk_dga.npy'], True), ('Siwk', num['siwk_dga.npy'], True)):
            def poly():
                q = lambda k: wide(num[f'PolyFits/{name}_poly_cont_.npy.{k}'])
                return dict(n=n, o=o, nk=list(nk), shift=shift, nu=[f6(a) for a in iv], r=[f6(1 / a) for a in iv], s=wide(pos(data)), band=q('re_fs'), width=q('im_fs'), z=q('Z'))
            rec.run('extrap', poly, key=f'{key} {name} extrapolation')
        def loc():
            t = np.ravel(num['PolyFits/Siw_DMFT_polyfit.txt'])
            one = lambda v: wide(np.reshape(v, (1, 1, 1)))
            return dict(n=n, o=o, nk=[1, 1, 1], shift=False, nu=[f6(a) for a in iv], r=[f6(1 / a) for a in iv], s=wide(pos(ref.siw)[None, None, None]), band=one(t[0]), width=one(t[1]), z=one(t[2]))
        rec.run('extrap', loc, key=f'{key} local extrapolation')
    if p['eliash'] and p['gapeq']:
        P = min(ref.niw // 2, ref.niv // 2)
        gk = ref.win(num['giwk_dga.npy'], P)
        w = np.abs(gk) ** 2
        for j, (ch, sg) in enumerate((('sing', 1), ('trip', -1))):
            def gap():
                txt = np.reshape(num['Eliashberg/eigenvalues.txt'], (2, -1))
                F = ref.pp[f'F_{ch}_pp']
                F = (F + sg * F[..., ::-1]) / 2
                lam = num[f'Eliashberg/eliashberg.npy.lambda_{ch}'][0]
                g = num[f'Eliashberg/eliashberg.npy.delta_{ch}'][0]
                g = g / g.flat[np.argmax(np.abs(g))]
                norm = np.prod(nk) * b
                fm = max(np.abs(F).max(), norm * abs(lam) / 8)
                ks = list(np.ndindex(*nk)); n2 = 2 * P
                K = np.array([[F[tuple((np.array(k) - q) % nk)] * w[q][None, :] for q in ks] for k in ks]).transpose(0, 2, 1, 3).reshape(len(ks) * n2, -1)
                ev = np.linalg.eigvals(-K / norm)
                dom = ev[np.argmax(np.abs(ev))].real
                mag = np.abs(ev - min(dom, 0)); top = mag.max(); rest = mag[mag < top * (1 - 1e-6)]
                judged = p['k_sym'] != 'random' or bool(rest.size and rest.max() < .998 * top and np.sort(np.abs(ev))[-1] > 0 and top > 1e-4 and np.ptp(ev[mag >= top * (1 - 1e-6)].real) < 1e-6)
                if os.environ.get('DEBUG_GAP'): print(key, ch, rest.max() / top, judged, file=sys.stderr)
                a = np.abs(ev); clear = bool(a.max() > 1e-3 and (a[a < a.max() * (1 - 1e-6)] < .95 * a.max()).all() and np.ptp(ev[a >= a.max() * (1 - 1e-6)].real) < 1e-6 * a.max() and np.abs(ev[a >= a.max() * (1 - 1e-6)].imag).max() < 1e-6 * a.max())
                return dict(clear=clear, dom=wi(dom * norm / fm), shift=wi(np.ravel(num['Eliashberg/eigenvalues_s.txt'])[j] * norm / fm), judged=judged, nk=list(nk), nv=n2, f=wide(F / fm), w=wide(w), gap=wide(g), lam=wi(lam.real * norm / fm), im=wi(lam.imag * norm / fm), printed=[wi(x * norm / fm) for x in txt[j]], all=[wi(x.real * norm / fm) for x in num[f'Eliashberg/eliashberg.npy.lambda_{ch}']], pairs=len(num[f'Eliashberg/eliashberg.npy.delta_{ch}']), neig=p['neig'], digit=wi(1e-9 * norm / fm) + 2,
                            top=wi(ev.real.max() * norm / fm), start=p['k_sym'], par=sg)
            rec.run('gap', gap, key=f'{key} {ch} gap equation')


FITS = [(2, 1), (3, 1), (4, 1), (5, 1), (3, 2), (4, 2), (5, 2), (4, 3), (2, 0), (3, 0)]       # frequencies and orders of the specification's table


def fits(rec, scratch):
    """the routine that fits and maps to the mesh, called directly: every mesh shape and order, slopes of both signs"""
    from dga import dga_io, brillouin_zone as bz
    import matplotlib.pyplot as plt
    R = np.random.RandomState(SEED + 24)
    MESH = [((4, 4, 1), SQ), ((2, 2, 2), []), ((4, 1, 1), ['x-inv']), ((1, 3, 1), []), ((1, 1, 1), []), ((2, 3, 2), ['y-inv']), ((4, 4, 2), ['x-inv', 'y-inv', 'z-inv'])]
    os.makedirs(scratch, exist_ok=True)
    keep, plt.savefig = plt.savefig, lambda *a, **k: None
    for i, (nk, sym) in enumerate(MESH * (4 if THOROUGH else 1)):
        g = bz.KGrid(nk, bz.two_dimensional_square_symmetries() if sym == SQ else sym)
        for n, o in (FITS if THOROUGH else FITS[i % 2::2]):
            m = n + int(R.randint(0, 3))
            b = float(R.uniform(2, 6))
            irr = R.uniform(-1, 1, (g.nk_irr, 2 * m)) + 1j * R.uniform(-1, 1, (g.nk_irr, 2 * m)) + 1j * np.linspace(-1, 1, g.nk_irr)[:, None] * np.arange(-m + .5, m) * .4
            data = irr[np.ravel(g.irrk_inv)].reshape(nk + (2 * m,))
            iv = vn_(b, np.arange(n))
            for shift in (False, True):
                def go():
                    dga_io.poly_fit(data.copy(), b, g, n, o, name='fit', output_path=scratch + '/', **(dict(pi_shift=True) if shift else {}))
                    d = np.load(scratch + '/fit.npy', allow_pickle=True).item()
                    q = lambda k: wide(d[k])
                    return dict(n=n, o=o, nk=list(nk), shift=shift, nu=[wi(a) for a in iv], r=[wi(1 / a) for a in iv], s=wide(data[..., m:m + n]), band=q('re_fs'), width=q('im_fs'), z=q('Z'))
                rec.run('extrap', go, key=f'fit of order {o} to {n} of {m} frequencies on {nk} shift={shift} {i}')
    plt.savefig = keep


def irreps(par):
    """representative of every q-point, from the mesh class itself (C05 decides it)"""
    from dga import brillouin_zone as bz, config as cfg
    p = {**dgain.DEF, **par}
    s = p['sym']
    s = bz.two_dimensional_square_symmetries() if s == SQ else tuple(s)
    return bz.KGrid(tuple(p['nq'] or p['nk']), s).irrk_inv


if sys.argv[3] == 'c24':
    rec = Rec(sys.argv[1])
    small = dict(beta=4.0, niw=2, niv=2, shell=1)
    jobs = [('sq', (dict(small, nk=(4, 4, 1), u=1.6, n=0.9, off=(.1, -.15)), (2,)), {}),
            ('sp', (dict(small, nk=(4, 2, 1), nq=(2, 2, 1), sym=[], lam='sp', shell=2, seed=2, n=1.1, u=1.2), (2,)), {}),
            ('no', (dict(small, nk=(3, 2, 1), sym=[], lam='none', seed=3, hr=(1.0, 0.3, -0.2), symv=False, extra=0, niw=1, niv=3, shell=0, off=(-.2, .1)), (2,)), {}),
            ('cube', (dict(nk=(2, 2, 2), beta=4.0, niw=2, niv=3, shell=1, sym=[], lam='sp', seed=5, off=(.05, 0.), poly=True), (3,)), {}),
            ('chain', (dict(beta=4.0, niw=2, niv=4, shell=1, nk=(4, 1, 1), sym=['x-inv'], seed=12, poly=True), (1,)), {}),
            ('pairs', (dict(beta=4.0, niw=4, niv=3, shell=1, nk=(2, 2, 2), sym=['z-inv'], seed=13, eliash=True, gapeq=False, keep_pv=False, save_vrg=False, optics=dict(do_vertex=True, niw_cond=1), keep=True), (2,)), {}),
            ('flat', (dict(small, nk=(2, 2, 1), hr=(0.0, 0.0, 0.0), seed=4, mu=0.3, niw=3), (1,)), {}),
            ('odd', (dict(neig=2, nk=(3, 3, 1), sym=['x-inv', 'y-inv'], seed=8, niw=2, niv=4, shell=1, poly=True, n_fit=5, o_fit=2, eliash=True, k_sym='random', hr=(1.0, .3, -.1)), (3,)), {}),
            ('full', (dict(nk=(4, 4, 1), poly=True, eliash=True, optics=dict(OPT, niw_cond=2, der_a=0, der_b=0, max_ent=dict(n_fit=2, nwr=41, wmax=9., mesh_type='linear', err=5e-2)), save_fq=True, keep_fq=True), (2,)), {}),
            ('optq', (dict(nk=(4, 2, 1), nq=(2, 1, 1), sym=[], seed=9, niw=2, niv=4, lam='sp', optics=dict(do_vertex=True, niw_cond=1, der_a=0, der_b=1), save_fq=True, keep_fq=True), (2,)), {}),
            ('opt', (dict(neig=2, nk=(4, 3, 1), sym=['x-inv', 'y-inv'], seed=6, shell=3, niv=5, niw=3, lam='sp', eliash=True, optics=dict(do_bubble=True, do_vertex=True, niw_cond=2, niw_vert=1, niv_bubble=6, niw_bubble=3, der_a=1, der_b=1,
                    max_ent=dict(n_fit=-1, nwr=61, wmax=12., err=1e-2)), keep_fq=False, asympt=12), (2,)), {})]
    if THOROUGH:
        jobs += [(f'rnd{i}', (dict(nk=[(4, 4, 1), (6, 4, 1), (3, 3, 1), (5, 2, 1), (2, 2, 2)][i % 5], nq=[None, (3, 2, 1), None, None, (1, 2, 1)][i % 5], sym=[SQ, ['x-inv', 'y-inv'], [], ['y-inv'], []][i % 5],
                                   lam=['spch', 'sp', 'none'][i % 3], hr=[(1.0, -0.2, 0.1), (1.0, 0.0, 0.0), (0.5, 0.3, 0.0)][i % 3], beta=[2.0, 3.0, 5.0, 4.0][i % 4], u=[1.6, 0.8, 2.0][i % 3], n=[0.9, 1.0, 0.7][i % 3], mu=[.55, .4, .3][i % 3],
                                   neig=1 + i % 2, niw=2 + i % 3, niv=2 + i % 4, shell=i % 4, seed=20 + i, symv=bool(i % 2), save_fq=bool(i % 3), poly=bool(i % 4 > 1), eliash=i % 5 in (0, 2, 3) and i % 3 > 0, k_sym='random'), (1 + (i % 3 if i % 5 in (0, 2, 3) else 0),)), {}) for i in range(60)]
    fits(rec, sys.argv[2])
    res = pool(jobs, 6)
    for tag, (par, _), _ in jobs:
        ref, out = res[tag]
        x = out[0]
        key = f'{tag} on {x["n"]} ranks'
        rec.emit(op='run', key=key, exc=x['exc'])
        if x['exc']: continue
        o = ref.solve()
        x['rep'] = irreps(par)
        ref.pp = {k: o.get(k) for k in ('F_sing_pp', 'F_trip_pp')}
        for k, v in o.items():
            if k == 'F_cond' and not ref.p['keep_fq'] or k in ('F_sing_pp', 'F_trip_pp') and ref.p['gapeq'] and not ref.p['keep_pv']: continue      # removed after use, see outputs
            if k == 'vrg' and not ref.p['save_vrg']: continue
            if k == 'vrg':
                inv = [int(a) for a in x['rep'].ravel()]
                first = [inv.index(i) for i in range(max(inv) + 1)]
                for c in ('dens', 'magn'):
                    name = f'vrg_q_{c}.npy'
                    if name in x['num'] and x['num'][name].shape == v[c][first].shape: a, b = scaled(v[c][first], x['num'][name], False)
                    else: a, b = arr(v[c][first], 1, None), arr(x['num'].get(name, np.zeros(0)), 1, None)
                    rec.emit(op='ref', key=f'{key} {name}', txt=False, a=a, b=b)
                continue
            f = result(x['num'], k)
            y = x['num'][f] if f else np.zeros(0)
            a, b = scaled(v, y, bool(f) and f.endswith('.txt')) if np.shape(v) == np.shape(y) else (arr(v, 1, None), arr(y, 1, None))
            rec.emit(op='ref', key=f'{key} {k}', txt=bool(f) and f.endswith('.txt'), a=a, b=b)
        outputs(rec, key, ref, x)
        try: derived(rec, key, ref, x)
        except KeyError as e:
            def missing(e=e): raise e
            rec.run('gap', missing, key=f'{key} result to derive from')
        if ref.niv <= 3 and ref.niw <= 3 and ref.full <= 4 and not ref.p['eliash']: ladder(rec, key, ref, x, o)
    rec.close()
