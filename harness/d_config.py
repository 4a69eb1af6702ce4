"""Driver (C17): configuration objects.  d_config.py <out> <behaviours> <scratch>"""
import io, json, os, sys
import numpy as np
from rec import Rec, THOROUGH, SEED, arr, ints
from dcfg import FakeComm
from dga import config, local_four_point as lfp, matsubara_frequencies as mf
from ruamel.yaml import YAML
rec = Rec(sys.argv[1])
R = np.random.RandomState(SEED + 17)
scratch = sys.argv[3]
os.makedirs(scratch, exist_ok=True)
sys.stdout = io.StringIO()
LAT = dict(type='t_tp_tpp', hr_input=[1.0, -0.2, 0.1], nk=[2, 2, 1], nq=[2, 2, 1], symmetries='two_dimensional_square')


def conf(cls, c, comm=None):
    """the way a run reads it: written to a yaml file and parsed"""
    f = scratch + '/dga_config.yaml'
    with open(f, 'w') as h: YAML().dump(c, h)
    with open(f) as h: c = YAML().load(h)
    return config.DgaConfig(c, comm=comm)


def given(keys, vals):
    return {k: int(v) for k, v in zip(keys, vals) if v != -1 or R.randint(2)}


def box(b): return dict(w=int(b.niw_core), v=int(b.niv_core), s=int(b.niv_shell), a=int(b.niv_asympt))


def resolve(beh, full):
    a, d, o = beh['ask'], beh['data'], beh['opt']

    def go():
        bs = given(('niw_core', 'niv_core', 'niv_shell', 'niv_asympt'), (a['w'], a['v'], a['s'], a['a']))
        op = given(('niw_vert', 'niw_cond', 'niv_bubble', 'niw_bubble'), (o['w'], o['c'], o['b'], o['n']))
        c = dict(box_sizes=bs, lattice=LAT, optics=op)
        if not bs: del c['box_sizes']
        if not op: del c['optics']
        cfg = conf(None, c) if full else config.DgaConfig(c)
        g = lfp.LocalFourPoint('dens', np.zeros((2 * d['W'] + 1, 2 * d['V'], 2 * d['V'])), 1.0, 1.0, is_full_w=True)
        r = dict(rej='box')
        try: cfg.box.set_from_lfp(g)
        except Exception: return r
        r['box'] = box(cfg.box)
        cfg.box.set_from_lfp(g)
        r['again'] = box(cfg.box)
        r.update(pp=int(cfg.box.niv_pp), full=int(cfg.box.niv_full), wn=ints(cfg.box.wn), vn=ints(cfg.box.vn_full), rej='optics')
        try: cfg.optics.set_frequency_ranges(cfg)
        except Exception: return r
        p = cfg.optics
        r.update(rej='', box2=box(cfg.box), optr=dict(w=int(p.niw_vert), c=int(p.niw_cond), b=int(p.niv_bubble), v=int(p.niv_vert), n=int(p.niw_bubble)),
                 wv=ints(p.wn_vert()), wc=ints(p.wn_cond(pos=True)), wb=ints(p.wn_bubble()))
        return r
    rec.run('resolve', go, key=f'ranges {a} {d} {o}', ask=a, data=d, opt=o)


behs = json.load(open(sys.argv[2]))
for i in R.permutation(len(behs))[:6000 if THOROUGH else 1200]: resolve(behs[i], i % 4 == 0)
for j in range(300 if THOROUGH else 80):
    pick = lambda *x: int(x[R.randint(len(x))])
    W, V = int(R.randint(1, 25)), int(R.randint(1, 25))
    resolve(dict(ask=dict(w=pick(-1, R.randint(1, W + 1), W, W + 1), v=pick(-1, R.randint(1, V + 1), V, V + 1), s=pick(0, 0, 3, 50), a=pick(-1, -1, R.randint(1, 200))),
                 data=dict(W=W, V=V), opt=dict(w=pick(-1, R.randint(1, W + 2)), c=pick(-1, R.randint(0, V + 1)), b=pick(-1, R.randint(1, 100)), v=-1, n=pick(-1, R.randint(0, 10)))), j % 2 == 0)

# lattices
NAMES = ['two_dimensional_square', 'quasi_one_dimensional_square', 'simultaneous_x_y_inversion', 'none', 'two_dimensional', 'x-inverse', 'None', 'square', 'three_dimensional_cubic']
LISTS = [[], ['x-inv'], ['y-inv'], ['x-inv', 'y-inv'], ['y-inv', 'x-inv'], ['z-inv'], ['x-inv', 'y-inv', 'z-inv'], ['x-inv', 'y-inv', 'x-y-sym'], ['x-y-inv'], ['x-y-sym'], ['x-inv', 'foo'], ['foo'], ['x-inv', 'X-INV'],
         ['two_dimensional_square'], ['x-inv', 'y-inv', 'x-y-sim']]
TYPES = [dict(), dict(type='t_tp_tpp'), dict(type='honeycomb'), dict(type='from_wannier90', hr_input=scratch + '/hr.dat'), dict(type='from_wannier90', hr_input=scratch + '/missing.dat'), dict(type='from_wannier90', hr_input=[1, 2, 3])]


def lattice(kind, v, nk, nq, hr, t, astuple=False, yaml=True):
    from dga import wannier
    wannier.WannierHr(*wannier.wannier_one_band_2d_t_tp_tpp(*hr)).save_hr(scratch + '/', 'hr.dat')
    c = dict(nk=list(nk), hr_input=[float(x) for x in hr])
    if nq: c['nq'] = list(nq)
    if kind == 'name': c['symmetries'] = v
    if kind == 'list': c['symmetries'] = tuple(v) if astuple else list(v)
    if kind == 'null': c['symmetries'] = v
    c.update(t)
    bad = t not in (TYPES[1], TYPES[3])

    def go():
        d = conf(None, dict(lattice=c)) if yaml and not astuple else config.DgaConfig(dict(lattice=c))
        l = d.lattice
        lab = lambda g: [int(x) + 1 for x in np.asarray(g.irrk_inv).ravel()]
        try: qk, qraise = [[int(a) for a in x] for x in l.get_q_list_on_k_grid(l.q_grid.get_q_list())], False
        except ValueError: qk, qraise = [], True
        return dict(qk=qk, qraise=qraise, ql=[[int(a) for a in x] for x in l.q_grid.get_q_list()], got=[str(x) for x in (l.symmetries or [])], klab=lab(l.k_grid), qlab=lab(l.q_grid), nkr=ints(l.k_grid.nk), nqr=ints(l.q_grid.nk), tot=[int(l.nk_tot), int(l.nq_tot)], ek=arr(np.real(l.get_ek()), 10 ** 6, None))
    rec.run('lattice', go, key=f'lattice {kind} {v} {nk} {nq} {t.get("type")} tuple{astuple}', kind=kind, name=v if kind == 'name' else '', list=list(v) if kind == 'list' else [], nk=list(nk), nq=list(nq or nk), hr=list(hr), bad=bool(bad))


MESH = [(4, 4, 1), (3, 3, 1), (4, 2, 1), (2, 3, 2), (1, 1, 1), (5, 5, 2)]
hop = lambda: [int(x) for x in R.randint(-3, 4, 3)]
for i, n in enumerate(NAMES):
    for j in range(2): lattice('name', n, MESH[(i + j) % 6], MESH[(i + 3 * j + 1) % 6] if j else None, hop(), TYPES[[1, 3][(i + j) % 2]])
for i, l in enumerate(LISTS):
    for tup in (False, True): lattice('list', l, MESH[i % 6], MESH[(i + 2) % 6] if tup else None, hop(), TYPES[1], tup)
for nk, nq in (((4, 4, 1), (2, 4, 1)), ((4, 6, 2), (2, 2, 2)), ((2, 4, 3), (2, 1, 1)), ((6, 4, 4), (3, 4, 2)), ((4, 4, 4), (4, 2, 1)), ((4, 6, 2), (4, 4, 2)), ((3, 3, 1), (3, 3, 2))): lattice('list', ['x-inv', 'y-inv'], nk, nq, hop(), TYPES[1])
lattice('null', None, (4, 3, 1), None, hop(), TYPES[1]); lattice('absent', '', (4, 3, 1), (2, 2, 2), hop(), TYPES[1])
for t in TYPES: lattice('name', 'two_dimensional_square', (4, 4, 1), None, hop(), t)

# pairing, ranks, sections
for k in ('d-wave', 'p-wave-x', 'p-wave-y', 'random'):
    def go():
        e = conf(None, dict(lattice=LAT, pairing=dict(k_sym=k))).eliash
        return dict(s=[e.gap0_sing['k'], e.gap0_sing['v']], t=[e.gap0_trip['k'], e.gap0_trip['v']])
    rec.run('pairing', go, key='pairing ' + k, k=k)
for nk, sym in (((4, 4, 1), 'two_dimensional_square'), ((2, 2, 1), 'none'), ((1, 1, 1), 'none')):
    from dga import brillouin_zone as bz
    n = config.LatticeConfig(dict(LAT, nk=list(nk), nq=list(nk), symmetries=sym)).k_grid.nk_irr
    for s in (1, n - 1, n, n + 1, 2 * n):
        if s > 0: rec.run('size', lambda: (config.DgaConfig(dict(lattice=dict(LAT, nk=list(nk), nq=list(nk), symmetries=sym)), comm=FakeComm(0, s)), {})[1], key=f'{s} ranks for {n} momenta', size=int(s), nkirr=int(n))

TOP = dict(poly_fitting=dict(n_fit=[4, 7], o_fit=[3, 2]),
           dmft_input=dict(type=['w2dyn', 'default', 'EDFermion'], input_path=['./', scratch + '/in/'], fname_1p=['1p-data.hdf5', 'one.npy'], fname_2p=['g4iw_sym.hdf5', 'two.hdf5'], do_sym_v_vp=[True, False]),
           output=dict(save_vrg=[False, True], save_fq=[False, True], keep_fq_optics=[False, True], keep_pairing_vertex=[True, False], verbosity=[1, 0, 2]), dga=dict(lambda_corr=['spch', 'sp', 'none']))
EL = dict(do_pairing_vertex=[False, True], do_eliash=[False, True], n_eig=[2, 5], k_sym=['random', 'd-wave'], sym_sing=[True, False], sym_trip=[True, False], eps=[1e-6, 1e-4], max_count=[10000, 17])
OP = dict(do_bubble=[False, True], do_vertex=[False, True], der_a=[0, 1], der_b=[0, 1, 2])
DE = dict(keep_rank_files=[False, True])


def draw(t): return {k: v[R.randint(len(v))] for k, v in t.items() if R.randint(2)}


class Bcast(FakeComm):
    """rank other than the root: receives what the root broadcast"""
    box = None

    def bcast(self, x, root=0):
        if self.rank == 0: Bcast.box = x
        return Bcast.box


for j in range(120 if THOROUGH else 40):
    c = dict(lattice=LAT)
    for s in TOP:
        if R.randint(3): c[s] = draw(TOP[s])
    el, op, de = draw(EL), draw(OP), draw(DE)
    for n, v in (('pairing', el), ('optics', op), ('debug', de)):
        if v or R.randint(2): c[n] = v
    S = lambda d: {k: str(v) for k, v in d.items()}

    def go():
        f = scratch + f'/c{j}.yaml'
        with open(f, 'w') as h: YAML().dump(c, h)
        argv, sys.argv = sys.argv, ['dga', '-p', scratch + '/', '-c', f'c{j}.yaml']
        try:
            d, cf = config.parse_config_file(Bcast(0, 2))
            d1, cf1 = config.parse_config_file(Bcast(1, 2))
        finally: sys.argv = argv
        out = scratch + f'/o{j}'
        os.makedirs(out, exist_ok=True)
        config.save_config_file(cf, out)
        with open(out + '/dga_config.yaml') as h: back = YAML(typ='safe').load(h)
        pick = lambda o, t: {k: str(getattr(o, k)) for k in t}
        r = lambda d: dict(top=pick(d, [k for s in TOP.values() for k in s] + ['do_poly_fitting']), el=pick(d.eliash, EL), op_=pick(d.optics, OP), de=pick(d.debug, DE))
        return dict(file=bool(back == c), ranks=bool(r(d) == r(d1)), **r(d))
    gtop = {k: v for s in TOP if s in c for k, v in c[s].items()}
    rec.run('sections', go, key=f'sections {j} {sorted(c)}', poly='poly_fitting' in c, gtop=S(gtop), gel=S(el), gop=S(op), gde=S(de))

# analytic continuation settings
for j in range(40 if THOROUGH else 16):
    kind = ['tan', 'linear', 'hyperbolic', 'lorentzian'][R.randint(4)]
    nwr, wmax, beta, gfit = [int(x[R.randint(len(x))]) for x in ((-1, 51, 101, 7), (-1, 5, 10), (1, 2, 10, 25), (-1, 12))]
    if kind == 'lorentzian': continue
    t, fmin, fmax = 2, int(R.randint(1, 30)), int(R.randint(30, 90))

    def go():
        c = {k: v for k, v in (('nwr', nwr), ('wmax', wmax), ('n_fit', gfit)) if v != -1}
        if kind != 'tan' or j % 2: c['mesh_type'] = kind
        m = config.MaxEntConfig(t, beta, c)
        return dict(mesh=ints(np.rint(np.asarray(m.mesh) * 10000)), nfit=int(m.n_fit), opt=int(m.get_n_fit_opt(fmin, fmax)), bw=int(np.rint(m.get_bw_opt() * 10 ** 6)))
    rec.run('maxent', go, key=f'maxent {kind} {nwr} {wmax}', kind=kind, nwr=nwr, wmax=wmax, beta=beta, gfit=gfit, t=t, fmin=fmin, fmax=fmax)
# the command that copies the template of the configuration file to the working directory
for j, old in enumerate((False, True)):
    def go():
        from cli import dga_config_generator as gen
        src = os.path.join(os.path.dirname(gen.__file__), '..', '..', 'config_templates', 'dga_config.yaml')
        d = scratch + f'/gen{j}'
        os.makedirs(d)
        if old:
            with open(d + '/dga_config.yaml', 'w') as f: f.write('lattice: {}\n')
        with open(src, 'rb') as f: want = f.read()
        here = os.getcwd()
        os.chdir(d)
        try:
            gen.main()
            cwd = os.path.realpath(os.getcwd()) == os.path.realpath(d)
        finally: os.chdir(here)
        with open(d + '/dga_config.yaml', 'rb') as f: got = f.read()
        with open(src, 'rb') as f: kept = f.read() == want
        c = YAML(typ='safe').load(got.decode())
        c['lattice'].update(type='t_tp_tpp', hr_input=[1., -.2, .1])
        m = config.DgaConfig(c, comm=Bcast(0, 2))
        return dict(same=got == want and kept, cwd=cwd, only=os.listdir(d) == ['dga_config.yaml'], top=[int(m.box.niw_core), int(m.box.niv_core), int(m.box.niv_shell)], given=[int(c['box_sizes'][k]) for k in ('niw_core', 'niv_core', 'niv_shell')])
    rec.run('template', go, key=f'template over={old}')
# settings written next to the results
for j in range(30 if THOROUGH else 10):
    el, op, bx = draw(EL), dict(draw(OP), niw_cond=int(R.randint(1, 5)), **(dict(max_ent=dict(nwr=41, err=1e-2)) if j % 2 else {})), dict(niw_core=int(R.randint(1, 9)), niv_core=int(R.randint(1, 9)), niv_shell=int(R.randint(0, 4)))

    def go():
        d = conf(None, dict(lattice=LAT, pairing=el, optics=op, box_sizes=bx))
        d.output_path = scratch + f'/y{j}'
        os.makedirs(d.output_path, exist_ok=True)
        d.eliash.output_path = d.optics.output_path = d.output_path
        d.eliash.to_yaml('eliashberg_config'); d.optics.to_yaml()
        rd = lambda n: YAML(typ='safe').load(open(f'{d.output_path}/{n}.yaml'))
        S = lambda q: {k: str(v) for k, v in q.items()}
        e, o = rd('eliashberg_config'), rd('config')
        g = [e.pop('gap0_sing'), e.pop('gap0_trip')]
        return dict(files=sorted(os.listdir(d.output_path)), e=S(e), o=S(o), we=S({k: v for k, v in vars(d.eliash).items() if 'gap0' not in k}), wo=S(vars(d.optics)), gap=[[q['k'], q['v']] for q in g],
                    wgap=[[q['k'], q['v']] for q in (d.eliash.gap0_sing, d.eliash.gap0_trip)])
    rec.run('yaml', go, key=f'settings file {j}')
# settings taken over from another object or a dictionary
for j in range(6):
    def go():
        a, b = config.DebugConfig(), config.EliashbergConfig(dict(k_sym='d-wave', n_eig=3 + j))
        c = config.EliashbergConfig(dict(eps=1e-3))
        if j % 2: c.set(b)
        else: c.set(dict(k_sym='d-wave', n_eig=3 + j))
        a.set(config.DebugConfig(dict(keep_rank_files=True)) if j % 3 else dict(keep_rank_files=True))
        return dict(k=c.k_sym, n=int(c.n_eig), eps=int(round(c.eps * 10 ** 6)), keep=bool(a.keep_rank_files), wn=3 + j, weps=1 if j % 2 else 1000)
    rec.run('set', go, key=f'settings taken over {j}')
rec.close()
