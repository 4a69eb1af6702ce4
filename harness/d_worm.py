"""Driver (C20): symmetrization of worm samples.  d_worm.py <out> <scratch>"""
import builtins, contextlib, hashlib, io, os, runpy, sys
import h5py
import numpy as np
from rec import Rec, arr, ints, THOROUGH, SEED
from dga import symmetrize as sy, w2dyn_aux_dga as w2
rec = Rec(sys.argv[1])
R = np.random.RandomState(SEED + 20)
scratch = sys.argv[2]
os.makedirs(scratch, exist_ok=True)
real_stdout, sys.stdout = sys.stdout, io.StringIO()
KIND = {'1freq_b': 'p2iw-worm', '2freq': 'p3iw-worm', '3freq': 'g4iw-worm'}
num = [0]


def fname(tag):
    num[0] += 1
    return os.path.join(scratch, f'{tag}{num[0]}.hdf5')


def digest(f): return hashlib.md5(open(f, 'rb').read()).hexdigest()


def comps(N):
    """flat indices of a Kanamori set"""
    r = []
    for i in range((2 * N) ** 4):
        d = [(i // (2 * N) ** (3 - k)) % (2 * N) for k in range(4)]
        b, s = [x // 2 for x in d], [x % 2 for x in d]
        if not ((b[0] == b[1] and b[2] == b[3]) or (b[0] == b[2] and b[1] == b[3]) or (b[0] == b[3] and b[1] == b[2])): continue
        if s[0] + s[2] != s[1] + s[3]: continue
        r.append(i + 1)
    return r


def shape(target, nf, nb): return {'1freq_b': (nb,), '2freq': (nf, nb), '3freq': (nf, nf, nb)}[target]


def symlists(cls): return [[j + 1 for j in R.permutation(len(cls)) if cls[j] == cls[i]] for i in range(len(cls))]


def sample(target, atoms, nf, nb, worm, nan=0.0):
    """random integer samples; atoms: number of bands of every atom"""
    f = fname('in')
    data = []
    with h5py.File(f, 'w') as h:
        h['.axes/iw'] = np.arange(3)
        for a, N in enumerate(atoms):
            d = {}
            for c in comps(N):
                x = (R.randint(-9, 10, shape(target, nf, nb)) + 1j * R.randint(-9, 10, shape(target, nf, nb))).astype(complex)
                if nan and target == '3freq':
                    m = R.rand(*x.shape) < nan
                    x[m] = [np.nan, 1j * np.nan, np.nan * (1 + 1j)][R.randint(3)]
                d[c] = x
                h[f'{worm}/ineq-{a + 1:03}/{KIND[target]}/{c:05}/value'] = x
            data.append(d)
        if worm != 'worm-last' and R.randint(2):       # an older iteration with another box and one component
            h[f'worm-last/ineq-001/{KIND[target]}/00001/value'] = np.ones(shape(target, nf + 2, nb + 2), dtype=complex)
    return f, data


def conf(target, f, out, atoms, cls, worm):
    c = dict(nineq=len(atoms), target=target, sym_type='o', outfile=out, Nbands=list(atoms), infile=f, sym=[symlists(x) for x in cls])
    if worm is not None: c['worm_group'] = worm
    return c


def stored(h, a, target):
    r = []
    for ch in ('dens', 'magn'):
        g = h[f'ineq-{a + 1:03}/{ch}']
        if target == '1freq_b':
            for k in g: r.append(dict(ch=ch, iwb=0, bgr=int(k), val=arr(g[k][()], 24)))
        else:
            for w in g:
                for k in g[w]:
                    v = g[w][k]['value'][()] if target == '3freq' else g[w][k][()]
                    r.append(dict(ch=ch, iwb=int(w), bgr=int(k), val=arr(v, 24)))
    return r


def command(f, out):
    """the command line program sym1b"""
    from cli import sym1b
    old = sys.argv
    sys.argv = ['sym1b', '-p', os.path.dirname(f) + '/', '-if', os.path.basename(f), '-of', os.path.basename(out)]
    try: sym1b.main()
    finally: sys.argv = old


def dialog(target, f, out, atoms, cls, spaces=' '):
    """the request as answers to the questions of the interactive mode"""
    a = [str(['1freq_f', '1freq_b', '2freq', '3freq'].index(target)), f, str(len(atoms))]
    for N, x in zip(atoms, cls): a += [str(N)] + [spaces.join(str(i) for i in l) for l in symlists(x)]
    a, old = iter(a + [out]), builtins.input
    builtins.input = lambda *q: next(a)
    try: return sy.ask_for_input()
    finally: builtins.input = old


def script(f, worm):
    """symmetrize.py as a program: takes the worm group and the file, the output is named after the file"""
    old, cwd = sys.argv, os.getcwd()
    os.chdir(os.path.dirname(f))
    sys.argv = [sy.__file__, worm, os.path.basename(f)]
    try: runpy.run_path(sy.__file__, run_name='__main__')
    finally:
        sys.argv = old
        os.chdir(cwd)


def one(target, atoms, cls, nf, nb, worm='worm-last', nan=0.0, cli=False, how=None):
    f, data = sample(target, atoms, nf, nb, worm or 'worm-last', nan)
    out = f[:-5] + '_sym.hdf5' if how == 'script' else fname('out')
    before = digest(f)
    box = {}

    def run():
        if cli: command(f, out)
        elif how == 'script': script(f, worm)
        elif how == 'dialog': sy.main(dialog(target, f, out, atoms, cls, ['  ', ' '][len(atoms) % 2]))
        else: sy.main(conf(target, f, out, atoms, cls, worm))
        return {}
    try: run()
    except (Exception, SystemExit) as e: box['err'] = type(e).__name__ + ': ' + str(e)[:150].replace('"', "'").replace('\\', '/')
    for a, N in enumerate(atoms):
        def res(a=a, N=N):
            if 'err' in box: raise RuntimeError(box['err'])
            with h5py.File(out, 'r') as h: st = stored(h, a, target)
            r = dict(out=st, same=digest(f) == before, read=[], niw=0)
            if target == '3freq':
                g = w2.W2dynG4iwFile(out)
                bands = sorted({x['bgr'] for x in st})
                for ch in ('dens', 'magn'):
                    for k in bands:
                        full = g.read_g2_full(ineq=a + 1, channel=ch, spinband=k)
                        r['read'].append(dict(ch=ch, bgr=k, val=arr(full, 24)))
                        again = g.read_g2(ineq=a + 1, channel=ch, niw=nb // 2, niv=nf // 2, spinband=k)
                        r['read'].append(dict(ch=ch, bgr=k, val=arr(again, 24)))
                        iw = np.arange(-(nb // 2), nb // 2 + 1)
                        r['read'].append(dict(ch=ch, bgr=k, val=arr(g.read_g2_iw(ineq=a + 1, channel=ch, spinband=k, iw=iw), 24)))
                r['niw'] = int(g.get_niw(ineq=a + 1, channel='dens', spinband=bands[0]))
                g.close()
            return r
        rec.run('sym', res, key=f'{target} atoms={atoms} cls={cls} nf={nf} nb={nb} atom={a} worm={worm} nan={nan} cli={cli}' + (f' {how}' if how else ''), target=target, N=N, cls=list(cls[a]), nf=nf, nb=nb, comps=list(data[a]), data=[arr(x) for x in data[a].values()])


S = (3 if THOROUGH else 1)
for _ in range(4 * S):
    nf, nb = 2 * R.randint(1, 4), 2 * R.randint(0, 4) + 1
    one('3freq', [1], [[1]], nf, nb, nan=[0.0, 0.1][R.randint(2)])
one('3freq', [1, 1], [[1], [1]], 2, 3)
one('3freq', [1], [[1]], 4, 3, worm='worm-001')
one('3freq', [1], [[1]], 2, 5, worm=None)
one('3freq', [1], [[1]], 4, 3, nan=0.05, cli=True)
for _ in range(S):
    for cls in ([1, 1], [1, 2]): one('3freq', [2], [cls], 2, 3, nan=0.1 * R.randint(2))
    for cls in ([1, 1, 1], [1, 1, 3], [1, 2, 1], [1, 2, 2], [1, 2, 3]): one(['2freq', '1freq_b', '3freq'][R.randint(3)] if not THOROUGH else '2freq', [3], [cls], 2, 1 + 2 * R.randint(2))
    for t in ('1freq_b', '2freq'):
        one(t, [1], [[1]], 2 * R.randint(1, 4), 2 * R.randint(0, 4) + 1, worm=['worm-last', 'worm-003'][R.randint(2)])
        one(t, [2, 1], [[1, 1], [1]], 2, 3)
        one(t, [1, 2], [[1], [1, 2]], 4, 3)
one('3freq', [1, 2], [[1], [1, 1]], 2, 1)
# the interactive mode and the module as a program
one('3freq', [1], [[1]], 4, 3, how='dialog')
one('2freq', [1, 2], [[1], [1, 1]], 2, 3, how='dialog')
one('1freq_b', [2], [[1, 2]], 2, 5, how='dialog')
one('3freq', [1], [[1]], 2, 3, worm='worm-002', how='script')


# one-particle functions
def onep(atoms, cls, nf, how=None):
    f, out = fname('p'), fname('po')
    data = []
    with h5py.File(f, 'w') as h:
        h['.config'] = np.arange(2)
        h['dmft-last/mu/value'] = 0.5
        for a, N in enumerate(atoms):
            d = [(R.randint(-9, 10, (N, 2, nf)) + 1j * R.randint(-9, 10, (N, 2, nf))).astype(complex) for _ in range(2)]
            for n, x in zip(('giw', 'siw'), d): h[f'dmft-last/ineq-{a + 1:03}/{n}/value'] = x
            h[f'dmft-last/ineq-{a + 1:03}/occ/value'] = np.ones(3)
            data.append(d)
    before = digest(f)
    err = []
    try: sy.main(dialog('1freq_f', f, out, atoms, cls) if how else conf('1freq_f', f, out, atoms, cls, 'worm-last'))
    except (Exception, SystemExit) as e: err.append(type(e).__name__ + ': ' + str(e)[:150].replace('"', "'"))
    for a, N in enumerate(atoms):
        def res(a=a):
            if err: raise RuntimeError(err[0])
            with h5py.File(out, 'r') as h:
                g = h[f'dmft-last/ineq-{a + 1:03}']
                return dict(giwout=arr(g['giw/value'][()], 24), siwout=arr(g['siw/value'][()], 24), giwkept=arr(g['giw_unsymmetrized/value'][()]), siwkept=arr(g['siw_unsymmetrized/value'][()]),
                            rest=bool(h['dmft-last/mu/value'][()] == 0.5 and 'occ/value' in g and '.config' in h), same=digest(f) == before)
        rec.run('onep', res, key=f'1freq_f atoms={atoms} cls={cls} atom={a}' + (f' {how}' if how else ''), N=N, cls=list(cls[a]), nf=nf, giw=arr(data[a][0]), siw=arr(data[a][1]))


for _ in range(S):
    onep([1], [[1]], 4)
    onep([2], [[1, 1]], 2)
    onep([3], [[1, 2, 1]], 2)
    onep([2, 1], [[1, 2], [1]], 6)
    onep([1, 2], [[1], [1, 1]], 2, how='dialog')

# flat indices
for N, n in ((1, 2), (1, 4), (2, 2), (2, 4), (3, 2), (3, 3)) + (((3, 4), (4, 3), (5, 2)) if THOROUGH else ((4, 2),)):
    def idx(N=N, n=n):
        rows = []
        for i in range(1, (2 * N) ** n + 1):
            bs, b, s = sy.index2component_general(N, n, i)
            fl = sy.component2index_band(N, n, b)
            rows.append(dict(bs=ints(bs), b=ints(b), s=ints(s), flat=int(fl), back=ints(sy.index2component_band(N, n, fl))))
        return dict(rows=rows)
    rec.run('idx', idx, key=f'indices N={N} n={n}', N=N, n=n)


# requests that cannot be served
def reject(key, f, out, cfg, existing=None, answer='n'):
    def fn():
        if existing is not None: open(out, 'wb').write(existing)
        before = digest(f)
        rej = False
        old = builtins.input
        builtins.input = lambda *a: answer
        try: sy.main(cfg)
        except SystemExit: rej = True
        finally: builtins.input = old
        same = digest(f) == before and (os.path.exists(out) and open(out, 'rb').read() == existing if existing is not None else not os.path.exists(out))
        return dict(rej=rej, same=same)
    rec.run('reject', fn, key=key)


f, _ = sample('3freq', [1], 2, 1, 'worm-last'); out = fname('o')
reject('output exists', f, out, conf('3freq', f, out, [1], [[1]], 'worm-last'), existing=b'an earlier result')
for sym in ([[1, 2], [2]], [[1], [1, 2]], [[1, 2, 3], [1, 2], [3]], [[1, 2], [1, 2], [2, 3]]):
    N = len(sym)
    f, _ = sample('3freq', [N], 2, 1, 'worm-last'); out = fname('o')
    c = conf('3freq', f, out, [N], [[1] * N], 'worm-last'); c['sym'] = [sym]
    reject(f'inconsistent orbital symmetry {sym}', f, out, c)
for drop in (2, 5):
    f, d = sample('3freq', [1], 2, 1, 'worm-last'); out = fname('o')
    with h5py.File(f, 'r+') as h: del h[f'worm-last/ineq-001/g4iw-worm/{list(d[0])[drop]:05}']
    reject(f'incomplete set of components, {drop}', f, out, conf('3freq', f, out, [1], [[1]], 'worm-last'))
rec.close()
