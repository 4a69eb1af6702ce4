"""Driver (C05, C06): dga.brillouin_zone.  d_brillouin.py <out> <C05|C06> [histories.json]"""
import itertools, json, random, sys
import numpy as np
from rec import Rec, THOROUGH, SEED, arr, ints
from dga import brillouin_zone as bz
rarr = arr
rec = Rec(sys.argv[1])
which = sys.argv[2]
rng = np.random.RandomState(SEED)
S1 = ['x-inv', 'y-inv', 'z-inv', 'x-y-sym', 'x-y-inv']
NAMED = ['two_dimensional_square_symmetries', 'two_dimensional_nematic_symmetries', 'quasi_two_dimensional_square_symmetries',
         'quasi_one_dimensional_square_symmetries', 'simultaneous_x_y_inversion']
MESHES = [(1, 1, 1), (2, 2, 1), (3, 3, 1), (4, 4, 1), (5, 5, 1), (4, 3, 1), (3, 5, 2), (3, 3, 3), (2, 4, 2), (6, 6, 1), (1, 4, 3)]
if THOROUGH: MESHES += [(7, 7, 1), (8, 8, 1), (4, 4, 4), (5, 6, 2), (6, 5, 1), (9, 9, 1), (2, 2, 5)]


def units(x, nk):   # momentum values -> mesh indices (exact up to rounding), scaled by 2 for half steps
    u = np.asarray(x) * nk / (2 * np.pi)
    r = np.rint(u)
    return np.where(np.abs(u - r) < 1e-6, r, 99999).astype(int)


def pts(mesh3, nk):
    m = np.asarray(mesh3).reshape(3, -1)
    return np.array([units(m[d], nk[d]) for d in range(3)]).T.tolist()


def reduction(nk, syms, named):
    g = bz.KGrid(nk, syms)
    return g, dict(inv=ints(g.irrk_inv), ind=ints(g.irrk_ind), count=ints(g.irrk_count), nkirr=int(g.nk_irr), nktot=int(g.nk_tot),
                   irrq=np.asarray(g.get_irrq_list()).tolist(), irrmesh=np.asarray(g.irrk_mesh_ind).T.tolist(),
                   irrk=pts(g.irr_kmesh, nk), irrgrid=pts(np.array(g.irr_kgrid), nk))


def orbit_fn(nk, syms):
    """lowest flat index reachable with the symmetries: a function symmetric under all of them (independent of the code)"""
    n = int(np.prod(nk))
    lab = np.arange(n)

    def img(s, k):
        x, y, z = k
        if s == 'x-inv': return (-x % nk[0], y, z)
        if s == 'y-inv': return (x, -y % nk[1], z)
        if s == 'z-inv': return (x, y, -z % nk[2])
        if s == 'x-y-sym': return (y, x, z) if nk[0] == nk[1] else k
        return (-x % nk[0], -y % nk[1], z)
    ch = True
    while ch:
        ch = False
        for i, k in enumerate(itertools.product(*map(range, nk))):
            for s in syms:
                a = img(s, k)
                j = (a[0] * nk[1] + a[1]) * nk[2] + a[2]
                m = min(lab[i], lab[j])
                if lab[i] != m or lab[j] != m: lab[i] = lab[j] = m; ch = True
    return lab


if which == 'C05':
    sets = [((), '')] + [(tuple(getattr(bz, n)()), n) for n in NAMED]
    sets += [((s,), '') for s in S1]
    allp = [p for k in (2, 3) for p in itertools.permutations(S1, k)]
    idx = rng.permutation(len(allp))
    sets += [(allp[i], '') for i in idx[:80 if THOROUGH else 14]] + [(('x-inv', 'y-inv', 'x-y-sym', 'z-inv'), ''), (('z-inv', 'x-y-sym', 'y-inv', 'x-inv'), '')]
    for nk in MESHES:
        for syms, named in sets:
            key = f'{nk} {"+".join(syms) or "none"}'

            def red():
                return reduction(nk, syms, named)[1]
            rec.run('reduce', red, key='reduce ' + key, nk=nk, syms=list(syms), named=named)
            if np.prod(nk) > 40 and not THOROUGH and named == '': continue
            for trail in ([], [2], [2, 3]):
                if trail == [2, 3] and np.prod(nk) > 30: continue
                t = int(np.prod(trail))

                def maps(cplx=False):
                    # complex data: the code gets complex arrays with the trailing axes `trail`, the specification sees real and
                    # imaginary part as one more trailing axis
                    cx = (lambda f: f() + 1j * f()) if cplx else (lambda f: f())
                    arr = (lambda a: rarr(np.stack([np.real(a), np.imag(a)], -1))) if cplx else rarr
                    g, r = reduction(nk, syms, named)
                    mesh = cx(lambda: rng.randint(1, 1000, size=tuple(nk) + tuple(trail)).astype(float))
                    mesh0 = mesh.copy()
                    irr = cx(lambda: rng.randint(1, 10 ** 6, size=(g.nk_irr,) + tuple(trail)).astype(float))
                    lab = orbit_fn(nk, syms)
                    sym = (lab.reshape(tuple(nk) + (1,) * len(trail)) * 10.0 + np.arange(t).reshape(trail or ())) + 1
                    if cplx: sym = sym + 1j * (3 * sym + 5)
                    lst = mesh.reshape((-1,) + tuple(trail))
                    fm = g.map_irrk2fbz(irr, 'mesh')
                    fl = g.map_irrk2fbz(irr, shape='list')
                    red = g.map_fbz2irrk(mesh, 'mesh')
                    r.update(fbzmesh=arr(fm), fbzlist=arr(fl), back=arr(g.map_fbz2irrk(fm)), backlist=arr(g.map_fbz2irrk(fl, shape='list')),
                             irrin=arr(irr), meshin=arr(mesh0), red=arr(red), redlist=arr(g.map_fbz2irrk(lst, 'list')), symin=arr(sym),
                             symback=arr(g.map_irrk2fbz(g.map_fbz2irrk(sym))), symavg=arr(g.symmetrize_irrk(sym)))
                    L = 1
                    for x in set(ints(g.irrk_count)): L = L * x // np.gcd(L, x)
                    big = mesh0 * 1.0
                    a = g.symmetrize_irrk(big)
                    cnt = np.asarray(g.irrk_count)[np.asarray(g.irrk_inv).ravel()].reshape(tuple(nk) + (1,) * len(trail))
                    # recorded times the class size: the specification multiplies back
                    r['avg'] = arr(a * cnt)
                    r['avg'] = dict(r['avg'])
                    r.update(meanmesh=arr(np.asarray(g.k_mean(sym, 'fbz-mesh')) * g.nk_tot), meanlist=arr(np.asarray(g.k_mean(sym.reshape((-1,) + tuple(trail)), 'fbz-list')) * g.nk_tot),
                             meanirr=arr(np.asarray(g.k_mean(g.map_fbz2irrk(sym), 'irrk')) * g.nk_tot), same=bool(np.array_equal(mesh, mesh0)))
                    return r
                rec.run('map', maps, key=f'map {key} {trail}', nk=nk, syms=list(syms), named=named, trail=trail)
                if trail != [2, 3]: rec.run('map', lambda: maps(True), key=f'map complex {key} {trail}', nk=nk, syms=list(syms), named=named, trail=trail + [2])

                def ap():
                    m = rng.permutation(int(np.prod(nk)) * t).reshape(tuple(nk) + tuple(trail))
                    m0 = m.copy()
                    bz.apply_symmetries(m, list(syms))
                    return dict(meshin=arr(m0), out=arr(m))
                rec.run('apply', ap, key=f'apply {key} {trail}', nk=nk, syms=list(syms), named=named, trail=trail)
else:
    for nk in MESHES:
        n = int(np.prod(nk))
        qs = [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1), (-1, 2, 0), (nk[0], -nk[1], 0), (3, -2, 1), (nk[0] - 1, nk[1] // 2, -1)]
        for trail in ([], [2], [2, 2]):
            t = int(np.prod(trail))
            for q in qs:
                def roll(fn):
                    m = rng.randint(0, 10 ** 6, size=tuple(nk) + tuple(trail)).astype(float)
                    m0 = m.copy()
                    return dict(meshin=arr(m0), out=arr(fn(m)), same=bool(np.array_equal(m, m0)))
                g = bz.KGrid(nk)
                k = dict(nk=nk, trail=trail, q=list(q))
                rec.run('roll', lambda: roll(lambda m: bz.shift_mat_by_ind(m, ind=list(q))), key=f'shift_mat_by_ind {nk} {q}', **k)
                rec.run('roll', lambda: roll(lambda m: g.shift_mat_by_ind(m, ind=tuple(q))), key=f'KGrid.shift_mat_by_ind {nk} {q}', **k)
                qm = [x % y for x, y in zip(q, nk)]
                kq = [2 * np.pi * x / y for x, y in zip(qm, nk)]
                rec.run('roll', lambda: roll(lambda m: g.shift_mat_by_q(m, q=kq)), key=f'KGrid.shift_mat_by_q {nk} {qm}', nk=nk, trail=trail, q=qm)
            h = [x // 2 for x in nk]
            for axes in ((0, 1, 2), (0, 1), (1,), (2, 0)):
                rec.run('roll', lambda: roll(lambda m: g.shift_mat_by_pi(m, axes=axes)), key=f'KGrid.shift_mat_by_pi {nk} {axes}', nk=nk, trail=trail, q=[h[d] if d in axes else 0 for d in range(3)])
            rec.run('roll', lambda: roll(lambda m: g.shift_mat_by_pi(m)), key=f'KGrid.shift_mat_by_pi {nk} default', nk=nk, trail=trail, q=h)
            rec.run('roll', lambda: roll(lambda m: bz.shift_mat_by_pi(m)), key=f'shift_mat_by_pi {nk}', nk=nk, trail=trail, q=[h[0], h[1], 0])
            rec.run('roll', lambda: roll(lambda m: bz.shift_mat_by_pi(m, nk=nk)), key=f'shift_mat_by_pi {nk} nk', nk=nk, trail=trail, q=[h[0], h[1], 0])

            def ml():
                m = rng.randint(0, 10 ** 6, size=tuple(nk) + tuple(trail)) + 1j * rng.randint(0, 10 ** 6, size=tuple(nk) + tuple(trail))
                l = g.map_fbz_mesh2list(m)
                return dict(meshin=arr(m), list=arr(l), mesh=arr(g.map_fbz_list2mesh(l)))
            rec.run('list', ml, key=f'list {nk} {trail}', nk=nk, trail=trail)
            for d in range(3):
                for at in {0, nk[d] - 1, nk[d] // 2, nk[d] // 3}:
                    def sl():
                        m = rng.randint(0, 10 ** 6, size=tuple(nk) + tuple(trail)).astype(float)
                        return dict(meshin=arr(m), out=arr(g.get_k_slice(m, d, 2 * np.pi * at / nk[d])))
                    rec.run('slice', sl, key=f'slice {nk} {d} {at}', nk=nk, trail=trail, dim=d, at=at)
                    for name, val in (('grid', lambda: g.grid[d][at]), ('below', lambda: g.grid[d][at] - 1e-9), ('above', lambda: g.grid[d][at] + 1e-9)):
                        def sl2():
                            m = rng.randint(0, 10 ** 6, size=tuple(nk) + tuple(trail)).astype(float)
                            return dict(meshin=arr(m), out=arr(g.get_k_slice(m, d, val())))
                        if not trail: rec.run('slice', sl2, key=f'slice {nk} {d} {at} {name}', nk=nk, trail=trail, dim=d, at=at)

        def coord():
            g = bz.KGrid(nk)
            return dict(qlist=np.asarray(g.get_q_list()).tolist(), meshind=np.asarray(g.kmesh_ind).reshape(3, -1).T.tolist(), meshlist=pts(g.kmesh_list, nk),
                        mesh=pts(g.kmesh, nk), ind=np.atleast_2d(np.asarray(g.ind)).tolist(),
                        shifted=[ints(units(a, m)) for a, m in zip(g.add_q_to_kgrid([2 * np.pi * x / m for x, m in zip((1, 0, 2), nk)]), nk)],
                        ext=[ints(units(np.array(a) * 2, m)) for f in (bz.get_extent, bz.get_extent_pi_shift) for a, m in zip(np.reshape(f(g), (2, 2)), nk)],
                        axes=[ints(units(a, m)) for a, m in zip(g.grid, nk)], shaxes=[ints(units(a * 2, m)) for a, m in zip((g.kx_shift, g.ky_shift, g.kz_shift), nk)])
        def default():
            m = rng.randint(0, 10 ** 6, size=tuple(nk)).astype(float)
            return dict(meshin=arr(m), outs=[arr(x) for x in (g.shift_mat_by_q(m), g.shift_mat_by_ind(m), bz.shift_mat_by_ind(m))], ind=ints(g.find_q_ind()))
        rec.run('noshift', default, key=f'no shift requested {nk}', nk=nk)
        rec.run('coord', coord, key=f'coord {nk}', nk=nk)
        for syms in ((), ('x-inv',), ('x-inv', 'y-inv'), ('y-inv', 'z-inv'), ('x-y-inv',), ('x-inv', 'y-inv', 'x-y-sym')):
            rec.run('irrcoord', lambda: reduction(nk, syms, '')[1], key=f'irrcoord {nk} {syms}', nk=nk)
        for k in itertools.product(*[sorted({0, 1 % m, m // 2, m - 1}) for m in nk]):
            rec.run('find', lambda: dict(ind=ints(g.find_q_ind([2 * np.pi * x / m for x, m in zip(k, nk)]))), key=f'find {nk} {k}', nk=nk, q=list(k))
            for sg in (0, 1, -1):
                rec.run('find', lambda: dict(ind=ints(g.find_q_ind([g.grid[d][k[d]] + sg * 1e-9 for d in range(3)]))), key=f'find {nk} {k} grid {sg}', nk=nk, q=list(k))
    K = {'Gamma': (0, 0, 0), 'X': (2, 0, 0), 'Y': (0, 2, 0), 'M': (2, 2, 0), 'M2': (1, 1, 0), 'Z': (0, 0, 2), 'R': (2, 0, 2), 'A': (2, 2, 2)}
    paths = [(['Gamma', 'X', 'M', 'Gamma'], '-'), (['Gamma', 'X', 'M2', 'Gamma', 'Y'], '|'), (['M', 'Gamma'], '-'), (['Gamma', 'Z', 'R', 'A', 'M', 'Gamma'], '-'),
             (['X', '0.25 0.75 0', 'M'], '-'), (['1.0 0 0', 'Gamma', '0.75 0.25 0.5'], '-'), (['Gamma', '1.0 1.0 0'], '|')]
    for nk in [(4, 4, 1), (8, 8, 1), (6, 4, 2), (4, 6, 2), (5, 7, 3), (12, 8, 4), (9, 9, 1), (3, 10, 5)]:
        for names, delim in paths:
            if nk[2] == 1 and any(x in ('Z', 'R', 'A') or x.endswith(' 0.5') for x in names): continue
            cor = [K[x] if x in K else tuple(int(round(float(y) * 4)) for y in x.split(' ')) for x in names]

            def path():
                p = bz.KPath(nk, delim.join(names), path_deliminator=delim)
                mat = np.arange(int(np.prod(nk))).reshape(nk)
                kv = np.asarray(p.k_val)
                a, b = rng.randint(-9, 10, size=(2,) + tuple(nk))
                h = np.zeros(tuple(nk) + (2, 2), dtype=complex)
                h[..., 0, 0], h[..., 1, 1] = a, a
                h[..., 0, 1], h[..., 1, 0] = 1j * b, -1j * b        # two bands, a - |b| and a + |b|
                bands = np.asarray(p.get_bands(h))
                tick = np.asarray(p.x_ticks) * max(int(p.nk_tot) - 1, 1)
                return dict(nkp=ints(p.nkp), kpts=np.asarray(p.kpts).tolist(), kvals=pts(kv, nk), kpoints=pts(np.asarray(p.k_points).T, nk), total=int(p.nk_tot),
                            mapped=ints(p.map_to_kpath(mat)), cind=ints(p.cind), segs=ints(p.nk_seg), labels=[str(x) for x in p.labels],
                            ticks=[int(np.rint(x)) if abs(x - np.rint(x)) < 1e-6 else 99999 for x in tick],
                            bands=[[int(np.rint(x)) if abs(x - np.rint(x)) < 1e-6 else 99999 for x in r] for r in bands],
                            ab=np.stack([a, b], -1).reshape(-1, 2).tolist())
            rec.run('path', path, key=f'path {nk} {delim.join(names)}', nk=nk, corners=[list(c) for c in cor], den=4, names=[1 if x in K else 0 for x in names])
    for h in json.load(open(sys.argv[3])):
        def run():
            nk = (4, 3, 2)
            g = bz.KGrid(nk)
            m = np.arange(24).reshape(nk)
            st = []
            for i, s in enumerate(h):
                if s['o'] == 'shift': m = (bz.shift_mat_by_ind if i % 2 else g.shift_mat_by_ind)(m, s['q'])
                elif s['o'] == 'pi': m = g.shift_mat_by_pi(m, axes=tuple(x - 1 for x in s['q']))
                elif s['o'] == 'list': m = g.map_fbz_mesh2list(m)
                else: m = g.map_fbz_list2mesh(m)
                st.append(ints(m))
            return dict(steps=st)
        rec.run('hist', run, key='hist ' + '-'.join(s['o'] for s in h), nk=(4, 3, 2), hist=h)
