"""Driver (C23): optical response; run serially and under mpirun.  d_optics.py <out> <serial|mpi>"""
import io, itertools, json, sys, types
import numpy as np
from rec import Rec, THOROUGH, SEED, arr, ints
from objs import obj
from dga import optics, wannier, brillouin_zone as bz, matsubara_frequencies as mf, mpi_aux
gi = lambda R, sh, m=2: R.randint(-m, m + 1, sh) + 1j * R.randint(-m, m + 1, sh)
BETA = 2.0


def table(R, complexh=False):
    """a Hermitian hopping table with integer hoppings (all meshes used have 1, 2 or 4 points per axis: exact phases)"""
    vecs = [(0, 0, 0), (1, 0, 0), (0, 1, 0), (1, 1, 0), (1, -1, 0), (2, 0, 0), (0, 2, 1), (0, 0, 1), (1, 0, 1)]
    t = {}
    for v in vecs:
        x = int(R.randint(-2, 3)) + (1j * int(R.randint(-1, 2)) if complexh and v != (0, 0, 0) else 0)
        t[v] = x; t[tuple(-c for c in v)] = np.conj(x)
    rs = list(t)
    hr = np.array([t[r] for r in rs], dtype=complex).reshape(-1, 1, 1)
    rg = np.array(rs, dtype=float).reshape(-1, 1, 1, 3)
    return wannier.WannierHr(hr, rg, np.ones((len(rs), 1)), np.ones((len(rs), 1, 1, 2))), dict(R=[list(r) for r in rs], t=arr(np.array([t[r] for r in rs])))


def green(R, nk, n, herm=False):
    g = gi(R, tuple(nk) + (2 * n,), 1)
    if herm: g = np.concatenate((np.conj(g[..., n:][..., ::-1]), g[..., n:]), axis=-1)
    return g


if sys.argv[2] == 'serial':
    rec = Rec(sys.argv[1])
    R = np.random.RandomState(SEED + 23)
    NK = [(1, 1, 1), (2, 1, 1), (2, 2, 1), (4, 1, 1), (4, 2, 1), (2, 1, 4)] + ([(4, 4, 1), (1, 4, 2), (2, 2, 2)] if THOROUGH else [])
    for inv, nk in enumerate(NK + [(3, 2, 1), (1, 2, 3), (5, 1, 1)]):
        grid, N = bz.KGrid(nk), int(np.prod(nk))
        BETA = [2.0, 5.0, 12.5, 40.0, 100.0][inv % 5]
        for nt in ('minus', 'plus', 'center'):
            for n, ng in ((1, 5), (3, 8), (4, 7)):
                for w in range(-(ng - n), ng - n + 1):
                    if abs(w) > 2 and not THOROUGH and (w + n) % 2: continue
                    g, a, b = green(R, nk, ng), gi(R, nk), gi(R, nk)
                    k = [x.copy() for x in (g, a, b)]
                    rec.run('bub', lambda: dict(out=arr(np.array([optics.get_chijj_bubble(g, a, b, BETA, w, n, freq_notation=nt)]), BETA * N / 2), same=bool(all(np.array_equal(x, y) for x, y in zip(k, (g, a, b))))),
                            key=f'bubble {nk} {nt} n{n} w{w}', nk=nk, g=arr(g), a=arr(a), b=arr(b), nt=nt, n=n, w=w)
        g, a, b = green(R, nk, 6), gi(R, nk), gi(R, nk)
        rec.run('bub', lambda: dict(out=arr(np.array([optics.get_chijj_bubble(g, a, b, BETA, 1, 2)]), BETA * N / 2), same=True), key=f'bubble {nk} default notation', nk=nk, g=arr(g), a=arr(a), b=arr(b), nt='minus', n=2, w=1)
        if nk not in NK: continue        # the light vertex of a model is exact on meshes of 1, 2, 4 points
        for da, db in ((0, 0), (0, 1), (1, 0), (1, 1), (2, 0), (0, 2)):
            hr, tab = table(R, complexh=bool((da + db) % 2))
            for nt in ('minus', 'plus', 'center'):
                g = green(R, nk, 8, herm=True)
                go = obj(g, BETA, np.zeros(nk))
                wn = mf.wn(3, pos=True) if nt == 'minus' else [2, 0, -1]

                def vec():
                    o = optics.vec_get_chijj_bubble(go, hr, grid, wn, 4, der_a=da, der_b=db, freq_notation=nt)
                    return dict(out=arr(o, BETA * N / 2), full=arr(mf.bosonic_full_nu_range(o), BETA * N / 2))
                rec.run('vbub', vec, key=f'bubble of a model {nk} {nt} d{da}{db}', nk=nk, g=arr(g), tab=tab, da=da, db=db, nt=nt, n=4, wn=ints(wn))
        hr, tab = table(R)
        g = green(R, nk, 6)
        rec.run('vbub', lambda: (lambda o: dict(out=arr(o, BETA * N / 2)))(optics.vec_get_chijj_bubble(obj(g, BETA, np.zeros(nk)), hr, grid, [1, 0], 4)), key=f'bubble of a model {nk} defaults', nk=nk, g=arr(g), tab=tab, da=0, db=0, nt='minus', n=4, wn=[1, 0])
        # vertex part
        for n, nwp, ncond in ((1, 0, 0), (1, 1, 1), (2, 1, 2), (3, 2, 1)):
            if N > 4 and n > 1 and not THOROUGH: continue
            qs = grid.get_q_list()
            for cut in ([(0, N)], [(0, N // 2), (N // 2, N)], [(0, 0), (0, N)], [(0, 1), (1, 1), (1, N)]):
                if len(cut) > 1 and n == 3: continue
                hr, tab = table(R, complexh=bool(n % 2))
                ng = n + nwp + ncond + int(R.randint(0, 3))
                g = green(R, nk, ng)
                go = obj(g, BETA, np.zeros(nk))
                F = gi(R, (N, 2 * nwp + 1, ncond + 1, 2 * n), 1)
                da, db = [(0, 0), (0, 1), (1, 0), (2, 0)][R.randint(4)]
                F0 = F.copy()
                nqt = [None, N, 3 * N, N + 1][(n + len(cut) + nwp) % 4]      # momenta of all ranks, where they are not those of the mesh
                tot_q = {} if nqt is None else dict(nq_tot=nqt)

                def vert():
                    parts = [optics.vec_get_chijj_vert(F[lo:hi], go, hr, grid, mf.wn(nwp), mf.wn(ncond, pos=True), qs[lo:hi], **tot_q, **({} if (da, db) == (0, 0) else dict(der_a=da, der_b=db))) for lo, hi in cut]
                    tot = np.zeros_like(parts[0])
                    for p in parts: tot = tot + p
                    sc = BETA ** 2 * N * (nqt or N) / 2
                    return dict(out=arr(tot, sc), parts=[arr(p, sc) for p in parts], types=[str(p.dtype) for p in parts], same=bool(np.array_equal(F, F0) and np.array_equal(g, go.g_full())))
                rec.run('vert', vert, key=f'vertex {nk} n{n} {nwp} {ncond} parts{len(cut)} d{da}{db} nq{nqt}', nk=nk, g=arr(g), tab=tab, f=arr(F), da=da, db=db, n=n, nwp=nwp, ncond=ncond,
                        qs=np.asarray(qs).tolist(), cut=[list(c) for c in cut])
    # one momentum list at a time, in any order, with the elementary routine
    for nk in [(2, 2, 1), (3, 1, 1), (3, 2, 1), (1, 2, 3)]:
        N = int(np.prod(nk))
        for j in range(4 if not THOROUGH else 12):
            n, wps, w = int(R.randint(1, 3)), [[0], [-1, 0, 1], [2], [1, -2]][j % 4], int(R.randint(-1, 3))
            qs = R.randint(-3, 4, (int(R.randint(0, 4)), 3))
            ng = n + 2 + abs(w)
            g, a, b = green(R, nk, ng), gi(R, nk), gi(R, nk)
            f = gi(R, (len(qs), len(wps), 2 * n), 1)
            rec.run('vone', lambda: dict(out=arr(np.array([optics.get_chijj_vertex(f, a, b, g, BETA, w, wps, qs, N)]), (BETA * N) ** 2 / 2)),
                    key=f'one vertex frequency {nk} {j}', nk=nk, g=arr(g), a=arr(a), b=arr(b), f=arr(f), n=n, wps=wps, w=w, qs=qs.tolist())
    # F(v, v') -> F(v, v - w)
    for no in range(1, 6):
        for nn in range(1, no + 1):
            m = gi(R, (2 * no, 2 * no), 9)
            wn = list(range(0, no - nn + 1)) + [-(no - nn)]
            rec.run('slice', lambda: dict(out=arr(optics.get_vmw_v_slice(m, wn, nn))), key=f'slice {no} {nn}', m=arr(m), no=no, nn=nn, wn=wn)
            rec.run('slice', lambda: dict(out=arr(optics.get_vmw_v_slice(m.real, wn, nn))), key=f'slice real {no} {nn}', m=arr(m.real), no=no, nn=nn, wn=wn)
    # real frequencies: spacing one, Fermi function exact (steep, flat, or powers of two)
    for nk in [(1, 1, 1), (2, 1, 1), (2, 2, 1), (4, 1, 1)]:
        grid, N = bz.KGrid(nk), int(np.prod(nk))
        meshes = [(list(range(-n, n + 1)), m) for n, m in ((3, 2), (5, 2), (5, 3), (6, 4), (7, 6))]
        meshes += [(list(range(-4, 4)), 2), (list(range(-3, 5)), 2), (list(range(-5, 5)), 3), ([2 * i + 1 for i in range(-4, 4)], 5), ([2 * i + 1 for i in range(-5, 5)], 5)]
        meshes += [([-9, -5, -2, -1, 0, 1, 2, 5, 9], 5), ([-12, -7, -4, -2, -1, 0, 1, 2, 4, 7, 12], 4), ([-10, -6, -3, -1, 0, 2, 3, 7, 11], 3), ([-8, -4, -3, -1, 1, 3, 4, 8], 4)]
        for im, (x, wm) in enumerate(meshes):
            uni = set(np.diff(x)) == {1}
            for kind, beta in (('step', 60.0), ('flat', 0.0), ('pow', np.log(2.0))):
                xa = np.array(x)
                if kind == 'pow' and np.abs(xa[(xa >= x[0] + wm) & (xa <= x[-1] - wm)]).max() > 3: continue
                sh = tuple(nk) + (len(x),)
                # linear between the mesh points where the mesh is not uniform: any interpolation is exact
                g = gi(R, sh, 2) if uni else (gi(R, tuple(nk) + (1,), 2) + gi(R, tuple(nk) + (1,), 2) * xa)
                A = R.randint(-2, 3, sh).astype(float)
                da, db = [(0, 0), (0, 1), (1, 0)][R.randint(3)]
                hr, tab = table(R)
                hs = [1., .5, 2., .25][(im + len(kind) + N) % 4]      # unit of the frequencies; the integral carries one factor of it
                go = types.SimpleNamespace(w=hs * xa.astype(float), awk=lambda: A, gwk=lambda: g, beta=beta / hs)
                den = dict(step=2, flat=2, pow=90)[kind]
                with np.errstate(over='ignore'):
                    nf = np.rint(den * (np.where(xa < 0, 1, np.where(xa == 0, .5, 0)) if kind == 'step' else .5 * np.ones(len(xa)) if kind == 'flat' else 1 / (2.0 ** np.clip(xa, -3, 3) + 1))).astype(int)
                    ask = wm + (.3 if im % 2 and uni else 0)

                def realf():
                    c, wb = optics.vec_get_chijj_bubble_realf(go, hr, grid, beta / hs, hs * ask, **({} if (da, db) == (0, 0) else dict(der_a=da, der_b=db)))
                    return dict(out=arr(c, -N * den / hs), w=ints(wb / hs))
                rec.run('realf', realf, key=f'real bubble {nk} {x} {wm} {kind} d{da}{db} spacing{hs}', nk=nk, g=arr(g), a=arr(A), tab=tab, da=da, db=db, x=x, wm=wm, nf=ints(nf))
                v3 = xa if kind != 'pow' else np.arange(-3, 4)
                n3 = nf if kind != 'pow' else np.rint(den / (2.0 ** v3 + 1)).astype(int)
                rec.run('fermi', lambda: dict(out=ints(np.rint(den * optics.fermi_function(v3.astype(float), beta)))), key=f'fermi {kind} {x}', nf=ints(n3))
    # conductivity from the response: chi'' = a w + b w^3 (+ c w^2 sign-free part in the real part, which plays no role)
    for npts in (4, 6, 9):
        for aa, bb in ((1, 0), (0, 1), (3, -2), (-1, 4)):
            w = np.arange(1, npts + 1).astype(float)
            chi = R.randint(-5, 6, npts) + 1j * (aa * w + bb * w ** 3)

            def sig():
                s, wn = optics.get_sigma_from_chijj_realf(chi, w)
                return dict(out=arr(s), w=ints(wn))
            rec.run('sigma', sig, key=f'sigma {npts} {aa} {bb}', n=npts, aa=aa, bb=bb)
    for args in ((), (0, 1), (1, 0), (1, 1), (0, 0)):
        def through():
            NW, M, nk = 7, 6, (4, 2, 1)
            g, A = gi(R, nk + (2 * NW + 1,), 2), R.randint(-2, 3, nk + (2 * NW + 1,)).astype(float)
            go = types.SimpleNamespace(w=np.arange(-NW, NW + 1).astype(float), awk=lambda: A, gwk=lambda: g, beta=0.)
            hr, tab = table(R)
            c, wb = optics.vec_get_chijj_bubble_realf(go, hr, bz.KGrid(nk), 0., float(M), *args)
            s, w = optics.vec_get_sigma_bub_realf(go, hr, bz.KGrid(nk), 0., float(M), *args)
            return dict(im=arr(np.imag(c) * 16), s=arr(np.asarray(s)[1:] * w[1:] * 16), w=ints(w), wb=ints(wb))
        rec.run('through', through, key=f'conductivity of the real-frequency bubble {args}')
else:
    from mpi4py import MPI
    comm = MPI.COMM_WORLD
    rec = Rec(sys.argv[1]) if comm.rank == 0 else None
    R = np.random.RandomState(SEED + 24)
    for nk in [(1, 1, 1), (2, 1, 1), (2, 2, 1), (4, 1, 1)]:
        for n, nwp, ncond in ((1, 1, 1), (2, 1, 0)):
            grid, N = bz.KGrid(nk), int(np.prod(nk))
            hr, tab = table(R)
            g = green(R, nk, n + nwp + ncond + 1)
            F = gi(R, tuple(nk) + (2 * nwp + 1, ncond + 1, 2 * n), 1)
            go = obj(g, BETA, np.zeros(nk))
            key = f'distributed vertex {nk} {n} {nwp} {ncond} ranks{comm.size}'
            if rec: open(sys.argv[1] + '.at', 'w').write(json.dumps(dict(op='dist', key=key)))
            exc, r = '', {}
            try:
                dist = mpi_aux.MpiDistributor(ntasks=grid.nk_tot, comm=comm, name='FBZ')
                mine = grid.get_q_list()[dist.my_slice]
                f = dist.scatter(grid.map_fbz_mesh2list(F) if comm.rank == 0 else None, root=0)
                o = optics.vec_get_chijj_vert(f, go, hr, grid, wn_vert=mf.wn(nwp), wn_cond=mf.wn(ncond, pos=True), q_list=mine, der_a=0, der_b=1)
                o = dist.allreduce(o)
                outs = comm.gather(o)
                if rec: r = dict(outs=[arr(x, (BETA * N) ** 2 / 2) for x in outs])
            except Exception as e:
                exc = type(e).__name__ + ': ' + str(e)[:150].replace('"', "'").replace('\\', '/')
                if comm.size > 1:
                    open(f'{sys.argv[1]}.exc', 'w').write(exc)
                    comm.Abort(3)
            if rec: rec.emit(op='dist', key=key, exc=exc, nk=nk, g=arr(g), tab=tab, f=arr(F.reshape((N,) + F.shape[3:])), da=0, db=1, n=n, nwp=nwp, ncond=ncond, qs=np.asarray(grid.get_q_list()).tolist(), **r)
    if rec:
        import os
        rec.close()
        os.remove(sys.argv[1] + '.at')
    sys.exit(0)
rec.close()
