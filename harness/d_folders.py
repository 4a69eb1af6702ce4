"""Driver (C18): output folders of runs on every schedule.  d_folders.py <out> <behaviours> <scratch>"""
import hashlib, io, json, os, shutil, sys
import numpy as np
from rec import Rec, THOROUGH, SEED
from coop import Sched
from dga import config, util, dga_io
rec = Rec(sys.argv[1])
R = np.random.RandomState(SEED + 18)
scratch = os.path.realpath(sys.argv[3])
os.makedirs(scratch, exist_ok=True)
sys.stdout = io.StringIO()


def tree(root):
    """every entry below root with its content"""
    t = {}
    for d, ds, fs in os.walk(root):
        for x in ds + fs:
            p = os.path.join(d, x)
            rel = os.path.relpath(p, root)
            if os.path.islink(p): t[rel] = 'link ' + os.readlink(p)
            elif os.path.isdir(p): t[rel] = 'dir'
            else: t[rel] = hashlib.md5(open(p, 'rb').read()).hexdigest()
    return t


def put(inp, name, kind):
    p = os.path.join(inp, name)
    if kind == 'dir':
        os.mkdir(p)
        open(p + '/siwk_dga.npy', 'w').write('earlier result of ' + name)
        if R.randint(2): os.mkdir(p + '/Plots')
    elif kind == 'file': open(p, 'w').write('a file')
    else: os.symlink('/nonexistent/target', p)


def name(r): return config.get_dga_output_folder_name(r['lc'], r['nk'], r['nq'], r['wc'], r['vc'], r['vs']).strip('/')


def runs(tag, specs, old, schedule, seed, ranks, exact=True):
    """specs: parameters of each run; old: {suffix or name: kind} of earlier entries"""
    inp = os.path.join(scratch, tag)
    os.mkdir(inp)
    for n, k in old: put(inp, n, k)
    before = tree(inp)
    s = Sched(schedule, seed, watch=inp)
    jobs = {}
    for i, r in enumerate(specs, 1):
        comms = s.comm(i, ranks)
        for k in range(ranks):
            def job(r=r, c=comms[k], i=i):
                cf = dict(box_sizes=dict(niw_core=r['wc'], niv_core=r['vc'], niv_shell=r['vs']), lattice=dict(type='t_tp_tpp', hr_input=[1, 0, 0], nk=r['mesh'], nq=r['meshq'], symmetries='none'),
                          dmft_input=dict(input_path=inp + ('/' if i % 2 else '')), dga=dict(lambda_corr=r['lc']))
                if r['poly']: cf['poly_fitting'] = dict(n_fit=4)
                d = config.DgaConfig(cf, comm=c)
                d.create_folders()
                rel = lambda p: os.path.relpath(os.path.normpath(p), inp) if p else ''
                x = dict(out=rel(d.output_path), el=rel(d.eliash.output_path), op=rel(d.optics.output_path), pf=rel(d.poly_fit_dir), pd=rel(getattr(d, 'pdir', None)), seen=sorted(os.listdir(d.output_path)) if os.path.isdir(d.output_path) else [])
                c.barrier()
                d.create_logger()
                if c.rank == 0:
                    d.save_data(np.arange(3), 'result')
                    config.save_config_file(cf, d.output_path)
                return x
            jobs[(i, k)] = job
    res = s.run(jobs)
    after = tree(inp)
    rr = []
    for i, r in enumerate(specs, 1):
        qs = []
        for k in range(ranks):
            x, e = res.get((i, k), (None, 'no result'))
            qs.append(dict(x or dict(out='', el='', op='', pf='', pd='', seen=[]), exc=e))
        o = qs[0]['out']
        rr.append(dict({k: r[k] for k in ('lc', 'nk', 'nq', 'wc', 'vc', 'vs', 'poly')}, ranks=qs, log=bool(o) and all(f'{o}/{f}' in after for f in ('dga.log', 'result.npy', 'dga_config.yaml'))))
    mine = {q['out'] for r in rr for q in r['ranks']}
    rest = {k: v for k, v in after.items() if k.split('/')[0] not in mine or k.split('/')[0] in before}
    dirs = [dict(run=e['run'], path=e['path'], top='/' not in e['path']) for e in s.log if e['op'] == 'mkdir' and e['ok']]
    rec.emit(op='runs', key=f'{tag}: {len(specs)} runs on {ranks} ranks, earlier {sorted(n for n, _ in old)}, schedule {list(schedule)}', old=sorted({k.split("/")[0] for k in before}), dirs=dirs, runs=rr, kept=bool(rest == before))
    shutil.rmtree(inp, ignore_errors=True)


def spec(**kw):
    mesh = [[2, 2, 1], [4, 2, 1], [3, 3, 1], [8, 1, 1]][R.randint(4)]
    meshq = mesh if R.randint(3) else [2, 4, 1]
    d = dict(lc=['spch', 'sp', 'none'][R.randint(3)], mesh=mesh, meshq=meshq, wc=int(R.randint(-1, 30)), vc=int(R.randint(-1, 30)), vs=int(R.randint(0, 200)), poly=bool(R.randint(2)))
    d.update(kw)
    d['nk'], d['nq'] = int(np.prod(d['mesh'])), int(np.prod(d['meshq']))
    return d


# the model's schedules: two runs with the same parameters started together
behs = json.load(open(sys.argv[2]))
seen = set()
for b in behs:
    k = json.dumps(b, sort_keys=True)
    if k in seen: continue
    seen.add(k)
    sp = spec()
    runs(f'b{len(seen)}', [sp, dict(sp)], [(name(sp) + ('' if i == 0 else f'_{i}'), 'dir') for i in b['old']], b['sched'], SEED, 1)
# random schedules with several ranks, several runs, earlier folders, files and dangling links
for j in range(150 if THOROUGH else 40):
    n, p = int(R.randint(1, 4)), int(R.randint(1, 5))
    sp = spec()
    same = bool(R.randint(2))
    ss = [sp if same else spec() for _ in range(n)]
    old = {}
    for r in ss:
        for i in range(4):
            if R.randint(2): old[name(r) + ('' if i == 0 else f'_{i}')] = ['dir', 'dir', 'dir', 'file', 'link'][R.randint(5)]
    old['input.hdf5'] = 'file'
    runs(f'r{j}', ss, sorted(old.items()), [int(x) for x in R.randint(1, n + 1, R.randint(0, 30))], SEED * 1000 + j, p)
# history: runs one after the other in the same input folder, some folders removed in between
for j in range(12 if THOROUGH else 4):
    inp = os.path.join(scratch, f'h{j}')
    os.mkdir(inp)
    a = [spec(), spec()]
    names = []
    for step in range(8):
        r = a[R.randint(2)]
        runs(f'h{j}s{step}', [r], [(x, 'dir') for x in names], [], SEED + step, int(R.randint(1, 4)))
        i = 0
        while name(r) + ('' if i == 0 else f'_{i}') in names: i += 1
        names.append(name(r) + ('' if i == 0 else f'_{i}'))
        if R.randint(3) == 0: names.pop(R.randint(len(names)))
    shutil.rmtree(inp, ignore_errors=True)
# folders made outside a run, and plain data files
for j in range(24):
    inp = os.path.join(scratch, f'u{j}')
    os.mkdir(inp)
    base = ['MaxEnt', 'MaxEntSiwk', 'LDGA_sp_Nk4', 'x_1'][j % 4]
    taken = [i for i in range(4) if R.randint(2)] if j else [0, 1, 2]
    for i in taken: put(inp, base + ('' if i == 0 else f'_{i}'), 'dir')
    want = next(i for i in range(5) if i not in taken)
    before = tree(inp)

    def go():
        p = inp + '/' + base + ('/' if j % 2 else '')
        q = os.path.normpath(dga_io.set_output_path(p) if j % 3 else util.uniquify(p))
        rest = {k: v for k, v in tree(inp).items() if k != os.path.relpath(q, inp)}
        return dict(got=os.path.relpath(q, inp), kept=bool(rest == before and (j % 3 == 0 or os.path.isdir(q))))
    rec.run('uniq', go, key=f'folder {base} taken {taken} slash{j % 2} created{bool(j % 3)}', base=base, want=want)
    shutil.rmtree(inp, ignore_errors=True)
for j in range(6):
    inp = os.path.join(scratch, f'd{j}')
    os.mkdir(inp)

    def go():
        o = config.OutputConfig()
        o.set_output_path(inp + '/out')
        m = [np.arange(6).reshape(2, 3), dict(a=np.arange(3), b=2.5), R.rand(3) + 1j][j % 3]
        o.save_data(m, 'first'); o.save_data(np.ones(4), 'second')
        b = o.load_data('first')
        same = np.array_equal(b, m) if not isinstance(m, dict) else (set(b) == set(m) and np.array_equal(b['a'], m['a']) and b['b'] == m['b'])
        fs = sorted(os.listdir(inp + '/out'))
        o.clean_data('first'); o.clean_data('missing')
        return dict(loaded=bool(same), files=fs, clean=bool(sorted(os.listdir(inp + '/out')) == ['second.npy'] and np.array_equal(o.load_data('second'), np.ones(4))))
    rec.run('data', go, key=f'data {j}', wantfiles=['first.npy', 'second.npy'])
    shutil.rmtree(inp, ignore_errors=True)
rec.close()
