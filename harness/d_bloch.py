"""Driver (C15, C16): tight-binding Hamiltonians and their files.  d_bloch.py <out> <C15|C16> <walks or scratch>"""
import json, os, sys
import numpy as np
from rec import Rec, THOROUGH, SEED, arr, ints
from dga import wannier, brillouin_zone as bz
rec = Rec(sys.argv[1])
R = np.random.RandomState(SEED + 15)
gi = lambda sh, m=3: R.randint(-m, m + 1, sh) + 1j * R.randint(-m, m + 1, sh)
H = 12 * 10 ** 6
MESH = [(4, 4, 1), (2, 4, 1), (3, 2, 2), (5, 1, 3), (1, 1, 1), (6, 4, 1), (1, 8, 2), (4, 3, 2), (10, 1, 1), (2, 2, 4)]


def table(nr, nb, pair=False, herm=False, m=2, rm=2, ws=(1,)):
    hr = gi((nr, nb, nb), m)
    r = R.randint(-rm, rm + 1, (nr, nb, nb, 3) if pair else (nr, 1, 1, 3)) * np.ones((1, nb, nb, 1), int)
    if herm:
        w = R.choice(ws, (nr, 1))
        hr = np.concatenate((hr, np.conj(np.transpose(hr, (0, 2, 1)))))
        r = np.concatenate((r, -np.transpose(r, (0, 2, 1, 3))))
        w = np.concatenate((w, w))
    else: w = R.choice(ws, (nr, 1))
    orbs = wannier.create_orbs(len(hr), nb)
    return hr, r, w, orbs


def raw(h, nk, hr, r, w, **kw):
    return dict(nk=list(nk), nr=len(hr), nb=int(hr.shape[-1]), hr=arr(hr), r=ints(r), w=ints(w), **kw)


def hk_case(nk, hr, r, w, orbs, key, herm):
    def go():
        keep = [np.copy(x) for x in (hr, r, w, orbs)]
        o = wannier.WannierHr(hr, r, w, orbs); g = bz.KGrid(tuple(nk))
        x = dict(ek=arr(o.get_ek(g, one_band=False), H, None), e1=arr(o.get_ek(g), H, None),
                 list=arr(wannier.convham2(hr, r, w, g.kmesh_list), H, None) if len(hr) > 1 else arr(wannier.convham(hr, r, w, g.kmesh_list), H, None),
                 lv=[arr(o.get_light_vertex(g, der=d, one_band=False), H, None) for d in range(3)], l1=[arr(o.get_light_vertex(g, der=d), H, None) for d in range(3)])
        x['same'] = all(np.array_equal(a, b) for a, b in zip(keep, (hr, r, w, orbs)))
        return x
    rec.run('hk', go, key=key, herm=herm, **raw(0, nk, hr, r, w))


def c15(walks):
    for i, wk in enumerate(R.permutation(len(walks))[:300 if THOROUGH else 60]):
        rows = walks[wk]
        Rs = sorted({tuple(x['R']) for x in rows})
        hr = np.zeros((len(Rs), 2, 2), complex); r = np.zeros((len(Rs), 2, 2, 3), int)
        for j, v in enumerate(Rs): r[j] = v
        for x in rows: hr[Rs.index(tuple(x['R'])), x['a'] - 1, x['b'] - 1] += x['t'][0] + 1j * x['t'][1]
        hk_case((4, 2, 1), hr, r, np.ones((len(Rs), 1)), wannier.create_orbs(len(Rs), 2), f'model walk {wk}', True)
    for j in range(40 if THOROUGH else 16):
        nk = MESH[j % len(MESH)]; nb = [1, 2, 3, 1, 2][j % 5]; nr = int(R.randint(1, 6)); herm = bool(j % 2)
        hk_case(nk, *table(nr, nb, pair=bool(j % 3 == 0), herm=herm, ws=(1, 2, 3, 4, 6)), f'table nk{nk} bands{nb} n{nr} hermitian{herm} {j}', herm)
    for j in range(20 if THOROUGH else 8):
        nk = MESH[(3 * j) % len(MESH)]
        g = bz.KGrid(nk)
        tx, ty, tp, px, py, tz, d2 = (int(x) for x in R.randint(-5, 6, 7))
        for nm, f, p in (('t_tp_tpp', lambda: wannier.wannier_one_band_2d_t_tp_tpp(tx, tp, px), [tx, tx, tp, tp, px, px]),
                         ('nematic', lambda: wannier.wannier_one_band_2d_nematic(tx, ty, px, py, tp), [tx, ty, tp, tp, px, py])):
            def go():
                hr, r, w, orbs = f(); o = wannier.WannierHr(hr, r, w, orbs)
                return dict(ek=arr(o.get_ek(g), 10 ** 6, None), lv=[arr(o.get_light_vertex(g, der=d), 10 ** 6, None) for d in range(3)], orbs=ints(orbs), **{k: v for k, v in raw(0, nk, hr, r, w).items() if k != 'nk'})
            rec.run('model', go, key=f'{nm} {p} nk{nk}', nk=list(nk), p=p + [0])
        tm = np.array([[tx, ty, tz], [tp, d2, 0], [px, py, 0]], float)
        p = [tx, ty, tp, d2, px, py, tz]
        q = R.randint(0, 4, 3)
        qv = [2 * np.pi * q[d] / nk[d] for d in range(3)]
        S = 10 ** 6
        key = f'amplitudes {p} nk{nk}'
        kl = np.array(g.kmesh_list).T
        rec.run('disp', lambda: dict(ek=arr(wannier.ek_3d(g.grid, tm), S, None)), key='ek_3d ' + key, nk=list(nk), p=p, q=[0, 0, 0], want=list(nk))
        rec.run('disp', lambda: dict(ek=arr(wannier.ek_3d_klist(kl, tm), S, None)), key='ek_3d_klist ' + key, nk=list(nk), p=p, q=[0, 0, 0], want=[int(np.prod(nk))])
        rec.run('disp', lambda: dict(ek=arr(wannier.ekpq_3d(g.kx[:, None, None], g.ky[None, :, None], g.kz[None, None, :], *qv, t_mat=tm), S, None)), key='ekpq_3d ' + key, nk=list(nk), p=p, q=ints(q), want=list(nk))
        n2 = [nk[0], nk[1], 1]
        p2 = [tx, tx, tp, tp, px, px, 0]
        rec.run('disp', lambda: dict(ek=arr(wannier.ek_square(g.kx[:, None], g.ky[None, :], tx, tp, px), S, None)), key='ek_square ' + key, nk=n2, p=p2, q=[0, 0, 0], want=n2[:2])
        rec.run('dispx', lambda: dict(ek=arr(wannier.del_ek_del_kx_square(g.kx[:, None], g.ky[None, :], tx, tp, px), S, None)), key='del_ek ' + key, nk=n2, p=p2, want=n2[:2])
        for nm, f, pp in (('t_tp_tpp', lambda: wannier.one_band_2d_t_tp_tpp(tx, tp, px), [tx, tx, tp, tp, px, px]), ('quasi1d', lambda: wannier.one_band_2d_quasi1d(tx, ty, px, py, tp), [tx, ty, tp, tp, px, py]),
                          ('nematic', lambda: wannier.one_band_2d_nematic(tx, ty, px, py, tp), [tx, ty, tp, tp, px, py]), ('triangular', lambda: wannier.one_band_2d_triangular_t_tp_tpp(tx, tp, px), [tx, tx, tp, 0, px, px]),
                          ('unfrustrated', lambda: wannier.unfrustrated_square(tx), [tx, tx, 0, 0, 0, 0])):
            rec.run('tmat', lambda: dict(t=arr(f())), key=f'{nm} {pp}', p=pp)
        # a whole number next to fractions
        a4, b4, c4, d4 = tx, tp / 4, px / 4, py / 4
        for nm, f, pp in (('t_tp_tpp', lambda: wannier.one_band_2d_t_tp_tpp(a4, b4, c4), [4 * tx, 4 * tx, tp, tp, px, px]), ('quasi1d', lambda: wannier.one_band_2d_quasi1d(a4, d4, c4, b4, d4), [4 * tx, py, py, py, px, tp]),
                          ('nematic', lambda: wannier.one_band_2d_nematic(a4, d4, c4, b4, d4), [4 * tx, py, py, py, px, tp]), ('triangular', lambda: wannier.one_band_2d_triangular_t_tp_tpp(a4, b4, c4), [4 * tx, 4 * tx, tp, 0, px, px])):
            rec.run('tmat', lambda: dict(t=arr(f(), 4)), key=f'{nm} mixed {pp}/4', p=pp)
        for nm, f, pp in (('t_tp_tpp', lambda: wannier.wannier_one_band_2d_t_tp_tpp(a4, b4, c4), [4 * tx, 4 * tx, tp, tp, px, px]), ('nematic', lambda: wannier.wannier_one_band_2d_nematic(a4, d4, c4, b4, d4), [4 * tx, py, py, py, px, tp])):
            def mixed():
                hr, r, w, orbs = f(); hr4 = 4 * hr; o = wannier.WannierHr(hr, r, w, orbs)
                return dict(ek=arr(4 * o.get_ek(g), 10 ** 6, None), lv=[arr(4 * o.get_light_vertex(g, der=d), 10 ** 6, None) for d in range(3)], orbs=ints(orbs), **{k: v for k, v in raw(0, nk, hr4, r, w).items() if k != 'nk'})
            rec.run('model', mixed, key=f'{nm} mixed {pp}/4 nk{nk}', nk=list(nk), p=pp + [0])
        # named materials, in units of 10^-5 t
        for nm, f, pp in (('standard_cuprates', wannier.standard_cuprates, [20, 20, -4, -4, 2, 2]), ('motoharu_nickelates', wannier.motoharu_nickelates, [100, 100, -25, -25, 12, 12]), ('unfrustrated_square', wannier.unfrustrated_square, [1, 1, 0, 0, 0, 0])):
            a = float(R.randint(-9, 10)) / 4
            rec.run('tmat', lambda: dict(t=arr(f(a), 4 * pp[0])), key=f'{nm} {a}', p=[int(4 * a) * x for x in pp])
            if not j: rec.run('tmat', lambda: dict(t=arr(f(), pp[0] * (4 if 'nick' in nm else 1))), key=f'{nm} default', p=pp)
        if not j:
            for nm, f, pp in (('Ba2CuO4', wannier.Ba2CuO4_plane, [185, 4700, 68, 68, 13, 850]), ('Ba2CuO4 projected', wannier.Ba2CuO4_plane_2d_projection, [258, 5181, 119, 119, -14, 894]), ('t defaults', wannier.one_band_2d_t_tp_tpp, [10000, 10000, 0, 0, 0, 0]),
                              ('quasi1d defaults', wannier.one_band_2d_quasi1d, [10000, 0, 0, 0, 0, 0]), ('nematic defaults', wannier.one_band_2d_nematic, [10000, 0, 0, 0, 0, 0]), ('triangular defaults', wannier.one_band_2d_triangular_t_tp_tpp, [10000, 10000, 0, 0, 0, 0])):
                rec.run('tmat', lambda: dict(t=arr(f(), 10000)), key=nm, p=pp)
            rec.run('disp', lambda: dict(ek=arr(wannier.ek_square(g.kx[:, None], g.ky[None, :]), 10 ** 6, None)), key='ek_square defaults', nk=[nk[0], nk[1], 1], p=[1, 1, 0, 0, 0, 0, 0], q=[0, 0, 0], want=[nk[0], nk[1]])
            rec.run('dispx', lambda: dict(ek=arr(wannier.del_ek_del_kx_square(g.kx[:, None], g.ky[None, :]), 10 ** 6, None)), key='del_ek defaults', nk=[nk[0], nk[1], 1], p=[1, 1, 0, 0, 0, 0, 0], want=[nk[0], nk[1]])
        e = [int(x) for x in R.randint(-3, 4, 5)]

        def emery():
            hr, r, w, orbs = wannier.wannier_emery_model(*e); o = wannier.WannierHr(hr, r, w, orbs)
            return dict(nr=len(hr), ek=arr(o.get_ek(g, one_band=False), S, None), hk=arr(wannier.emery_model_ek(g, *e), S, None), lv=[arr(o.get_light_vertex(g, der=d, one_band=False), S, None) for d in range(3)], orbs=ints(orbs))
        rec.run('emery', emery, key=f'emery {e} nk{nk}', nk=list(nk), nb=3, p=e)


def c16(scratch):
    os.makedirs(scratch, exist_ok=True)
    sc = scratch + '/'
    n = 0
    sizes = [1, 2, 7, 14, 15, 16, 29, 30, 31, 45] + ([46, 60, 61, 99] if THOROUGH else [])
    for nr in sizes:
        for nb in ((1, 2, 3) if nr <= 16 or THOROUGH else (1, 2)) + ((10, 12) if nr == 2 else ()):
            n += 1
            big = nb != 2
            hr = (R.randint(-10 ** 9, 10 ** 9, (nr, nb, nb)) + 1j * R.randint(-10 ** 9, 10 ** 9, (nr, nb, nb))) * 1e-6 if big else gi((nr, nb, nb), 999) * 1e-6
            r = R.randint(-99, 100, (nr, 1, 1, 3)) * np.ones((1, nb, nb, 1), int)
            w = R.randint(1, 13, (nr, 1))
            orbs = wannier.create_orbs(nr, nb)
            o = wannier.WannierHr(hr, r if n % 2 else r.astype(float), w, orbs)
            f = f'h{n}.dat'
            key = f'file of {nr} vectors {nb} orbitals'

            def back(h):
                return dict(hr2=arr(h.hr, 10 ** 6), r2=ints(h.r_grid), orbs2=ints(h.orbs), w2=ints(h.r_weights), wsh=[int(x) for x in np.shape(h.r_weights)])
            base = dict(nr=nr, nb=nb, hr=arr(hr, 10 ** 6), r=ints(r), w=ints(w), orbs=ints(orbs))

            def go():
                o.save_hr(sc, f)
                lines = [l.split() for l in open(sc + f)]
                num = [[int(np.rint(float(x) * 10 ** 6)) for x in l] if i else [0] for i, l in enumerate(lines)]
                num = [[x if abs(x) < 2 ** 31 else 2147480000 for x in l] for l in num]
                return dict(lines=num, **back(wannier.create_wannier_hr_from_file(sc + f)))
            rec.run('hrwrite', go, key=key, **base)
            # a file of another program: first orbital index runs fastest, other spacing, long comment

            def other():
                ob = np.zeros((nr, nb, nb, 2), int)
                with open(sc + 'o' + f, 'w') as g:
                    g.write(' written on 12Jan2020 at 12:00:01 by hand, 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17\n%12d\n%12d\n' % (nb, nr))
                    for i in range(0, nr, 15): g.write(''.join('%5d' % x for x in w[i:i + 15, 0]) + '\n')
                    for i in range(nr):
                        for b in range(nb):
                            for a in range(nb):
                                ob[i, b, a] = [a + 1, b + 1]
                                g.write('%5d%5d%5d%5d%5d%16.6f%16.6f\n' % (*r[i, 0, 0], a + 1, b + 1, hr[i, b, a].real, hr[i, b, a].imag))
                x = back(wannier.WannierHr(*wannier.read_hr_w2k(sc + 'o' + f)))
                x['orbs'] = ints(ob)
                return x
            rec.run('hrread', other, key='foreign ' + key, **{k: v for k, v in base.items() if k != 'orbs'})
    # momentum space
    for j in range(24 if THOROUGH else 12):
        nk = MESH[j % len(MESH)]; nb = [1, 2, 3, 4][j % 4]
        hr, r, w, orbs = table(int(R.randint(2, 6)), nb, herm=True, ws=(1, 2, 3))
        g = bz.KGrid(nk); o = wannier.WannierHr(hr, r, w, orbs)

        def go():
            o.save_hk(g, sc, f'k{j}.hk')
            hk, kp = wannier.read_hk_w2k(sc + f'k{j}.hk')
            return dict(hk2=arr(hk, H, None), kp2=arr(kp, 10 ** 6, None))
        rec.run('hkmesh', go, key=f'saved mesh nk{nk} bands{nb}', **raw(0, nk, hr, r, w))

        n = int(np.prod(nk))
        kp = R.randint(-9, 10, (3, n)) / 8
        hk = gi((n, nb, nb), 999) * .5
        if j % 3 == 0: hk = hk.real.copy()
        keep = hk.copy()

        def go2():
            wannier.write_hk_wannier90(hk, sc + f'w{j}.hk', kp, nk)
            a, b = wannier.read_hk_w2k(sc + f'w{j}.hk')
            return dict(hk2=arr(np.asarray(a, complex), 1000), kp2=arr(b, 10 ** 6, None))
        rec.run('hkfile', go2, key=f'hk file nk{nk} bands{nb} real{j % 3 == 0}', hk=arr(keep.astype(complex), 1000), kp=arr(kp, 10 ** 6), n=n)

        def foreign(head, spin=True, drop=0, nwrite=n):
            with open(sc + 'f.hk', 'w') as f:
                f.write(head)
                for i in range(nwrite - drop):
                    f.write('%.6f %.6f %.6f\n' % tuple(kp[:, i % n]))
                    for a in range(nb): f.write('  '.join('%.6f %.6f' % (hk[i % n, a, b].real, hk[i % n, a, b].imag) for b in range(nb)) + '\n')
            a, b = wannier.read_hk_w2k(sc + 'f.hk', spin_sym=spin)
            return dict(hk2=arr(np.asarray(a, complex), 1000), kp2=arr(b, 10 ** 6, None))
        b0 = dict(hk=arr(keep.astype(complex), 1000), kp=arr(kp, 10 ** 6), n=n)
        rec.run('hkfile', lambda: foreign(f'{n} {nb} {nb} # comment 1 2\n'), key=f'comment header {nk} {nb}', **b0)
        rec.run('hkfile', lambda: foreign(f'{n} 1 {nb} 0\n'), key=f'version 1 header {nk} {nb}', **b0)
        rec.run('hkfile', lambda: foreign(f'VERSION 2\n{n} 1\n{nb} 0\n'), key=f'version 2 header {nk} {nb}', **b0)
        rec.run('hkfile', lambda: foreign(f'{n} {nb} {nb}\n', nwrite=n + 2), key=f'more momenta than announced {nk} {nb}', **b0)
        rec.run('short', lambda: foreign(f'{n} {nb} {nb}\n', drop=1), key=f'missing momentum {nk} {nb}', n=n)
        if nb % 2 == 0:
            rec.run('hkspin', lambda: foreign(f'{n} {nb} {nb}\n', spin=False), key=f'spin-orbit {nk} {nb}', hk=b0['hk'], n=n, nb=nb // 2)


if sys.argv[2] == 'C15': c15(json.load(open(sys.argv[3])))
else: c16(sys.argv[3])
rec.close()
