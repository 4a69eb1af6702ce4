"""Driver (C12): the Schwinger-Dyson equation, local and on the lattice.  d_sde.py <out>"""
import os, sys
import dcfg
from dga import mpi_aux
import numpy as np
from rec import Rec, THOROUGH, SEED, arr, warr as farr, wx as fx, ints
from vdraw import *
from dga import local_four_point as lfp, four_point as fp, bubble as bub, matsubara_frequencies as mf, high_level_routines as hlr, brillouin_zone as bz
rec = Rec(sys.argv[1])
R = np.random.RandomState(SEED + 5)


def ri(sh, a=4): return (R.randint(-a, a + 1, sh) + 1j * R.randint(-a, a + 1, sh)).astype(complex)


def qset(nk, kind):
    full = [(a, b, c) for a in range(nk[0]) for b in range(nk[1]) for c in range(nk[2])]
    if kind == 'full': return full
    if kind == 'perm': return [full[i] for i in R.permutation(len(full))]
    if kind == 'sub': return [full[i] for i in R.permutation(len(full))[:max(1, len(full) // 2)]]
    return []


WNS = [[0], [-1, 0, 1], [-2, 1], [3], [-2, -1, 0, 1, 2], [2, -1]]
MESH = [(1, 1, 1), (3, 1, 1), (2, 3, 1), (1, 2, 2), (2, 2, 1), (1, 2, 3), (1, 1, 4)]
k = 0
for rep in range(6 if THOROUGH else 2):
    for nk in MESH:
        for wn in WNS:
            k += 1
            n, m = ((1, 0), (2, 0), (1, 2), (2, 1), (3, 1), (1, 3))[(k + rep) % 6]
            u, beta = ((2, 2), (4, 3), (6, 1))[k % 3]
            extra = (0, 1, 3)[(k // 2) % 3]
            N = n + m + max(abs(w) for w in wn) + extra
            kind = ('full', 'perm', 'sub', 'full')[(k // 3) % 4]
            qs = qset(nk, kind)
            nq, nw = len(qs), len(wn)
            nqt = int(np.prod(nk))
            g = ri(nk + (2 * N,))
            vd, vm = ri((nq, nw, 2 * n), 3), ri((nq, nw, 2 * n), 3)
            cd, cm = ri((nq, nw), 2), ri((nq, nw), 2)
            kd = ri((nq, nw, 2 * n), 9)
            ql = np.array(qs, dtype=int)
            wna = np.array(wn)
            par = dict(nk=list(nk), qs=[list(q) for q in qs], wn=wn, u=u, beta=beta, n=n, m=m, g=arr(g), vd=arr(vd), vm=arr(vm), cd=arr(cd), cm=arr(cm))
            name = f'nk{nk} {kind} wn{wn} n{n} m{m}'

            def full():
                ins = [x.copy() for x in (vd, vm, cd, cm, kd, g)]
                s = fp.schwinger_dyson_full_q(*ins[:5], ins[5], float(beta), float(u), ql, wna, nqt, niv_shell=m)
                same = all(np.array_equal(a, b) for a, b in zip(ins, (vd, vm, cd, cm, kd, g)))
                return dict(out=arr(s * 2 * beta * nqt), same=bool(same))
            rec.run('fullq', full, key='full ' + name, kd=arr(kd), **par)

            def kern():
                s = fp.schwinger_dyson_kernel_q(kd.copy(), g.copy(), float(beta), ql, wna, nqt)
                return dict(out=arr(s * beta * nqt))
            rec.run('kernq', kern, key='kernel sum ' + name, kd=arr(kd), **par)
            for ch in ('dens', 'magn'):
                dup = R.randint(1, 5, nq)

                def vr():
                    s = fp.schwinger_dyson_vrg_q(vd.copy(), cd.copy(), g.copy(), float(beta), float(u), ch, ql, dup, wna, nqt)
                    kk = fp.get_kernel(vd.copy(), cd.copy(), float(u), ch)
                    return dict(out=arr(s * 2 * beta * nqt), kernel=arr(kk * 2))
                rec.run('vrgq', vr, key=f'channel {ch} ' + name, dup=ints(dup), sg=SG[ch], **par)

                def chq():
                    s = fp.schwinger_dyson_channel_q(vd.copy(), cd.copy(), ch, g.copy(), float(beta), float(u), ql, np.ones(nq), wna, nqt, niv_shell=m)
                    return dict(out=arr(s * 2 * beta * nqt))
                rec.run('chanq', chq, key=f'channel and shell {ch} ' + name, sg=SG[ch], **par)

            def dco():
                s = fp.schwinger_dyson_dc(kd.copy(), g.copy(), float(u), ql, np.ones(nq), wna, nqt)
                return dict(out=arr(s * nqt))
            rec.run('dco', dco, key='old double counting ' + name, kd=arr(kd), **par)
            for ch in ('dens', 'magn'):
                x0, f = ri((nq, nw, 2 * n), 3), ri((nw, 2 * n, 2 * n), 3)

                def dck():
                    fo = lfp.LocalFourPoint(ch, f.copy(), 3.0, float(u), wn=wna)
                    return dict(out=arr(fp.get_kernel_dc(fo, x0.copy())))
                rec.run('dck', dck, key=f'double counting kernel {ch} {name}', ur=SG[ch] * u, x0=arr(x0), f=arr(f))
            # local equation
            gl = ri((2 * N,))
            nfill = (0.5, 1.0, 1.5, 2.0)[k % 4]

            def loc():
                V = [lfp.LocalThreePoint(c, x.copy(), float(beta), float(u), wn=wna) for c, x in (('dens', vd[0]), ('magn', vm[0]))]
                s = lfp.schwinger_dyson_full(V[0], V[1], cd[0].copy(), cm[0].copy(), gl.copy(), nfill, niv_shell=m)
                one = [lfp.schwinger_dyson_core_urange(v, c.copy(), gl.copy(), m) for v, c in zip(V, (cd[0], cm[0]))]
                ok = np.array_equal(V[0].mat, vd[0]) and np.array_equal(V[1].mat, vm[0])
                tail = np.array([]) if m == 0 else np.asarray(fp.schwinger_dyson_shell(cd[0].copy(), gl.copy(), float(beta), float(u), m, n, wna))
                return dict(out=arr(s * 2 * beta), dens=arr(one[0] * 2 * beta), magn=arr(one[1] * 2 * beta), same=bool(ok), tail=arr(tail * 2 * beta))
            rec.run('local', loc, key='local ' + name, bun=int(beta * u * nfill), gl=arr(gl), **par)

            def lf():
                f, x0 = ri((nw, 2 * n, 2 * n), 3), ri((nw, 2 * n), 3)
                fo = lfp.LocalFourPoint('dens', f.copy(), float(beta), float(u), wn=wna)
                return dict(f=arr(f), x0=arr(x0), out=arr(lfp.schwinger_dyson_f(fo, x0.copy(), gl.copy()) * beta))
            rec.run('localf', lf, key='local from the full vertex ' + name, gl=arr(gl), **par)


# local limit: momentum independent vertex and bubble, through the routines the main program calls
tmp = os.path.dirname(os.path.abspath(sys.argv[1]))
CASES = [([-1, 0, 1], 2, 0), ([-1, 0, 1], 2, 1), ([-2, -1, 0, 1, 2], 2, 2), ([-1, 0, 1], 4, 0), ([-1, 0, 1], 4, 1)]
for rep in range(4 if THOROUGH else 1):
    for (wn, n, m), (beta, u) in zip(CASES, ((2, 1.5), (3, 2.0), (2, 0.8), (4, 3.0), (2, 1.2))):
        for nk in ((1, 1, 1), (2, 1, 1), (2, 2, 1)):
            while True:
                gen, giw, x0, gd, *_ = bubblegen('dens', wn, True, n, m, beta, u)
                try: gm, _x, *_ = draw(len(wn), n, m, beta, -u, x0=x0, tries=200)
                except RuntimeError: continue
                D, M = mk4 = [lfp.LocalFourPoint(c, a, float(beta), u, is_full_w=True) for c, a in (('dens', gd), ('magn', gm))]
                vs = [lfp.get_vrg_and_chir_tilde_from_gammar_urange(o, gen, niv_shell=m) for o in mk4]
                if max(np.abs(v.mat).max() for v, c in vs) < 6: break
            nqt = int(np.prod(nk))
            cfg = dcfg.make(os.path.join(tmp, f'c{rec.n}'), dict(niw_core=len(wn) // 2, niv_core=n // 2, niv_shell=m), nk, symmetries='none', sysp=dict(n=1.0, beta=float(beta), u=u))
            cfg.comm = dcfg.FakeComm(1, 2)     # a rank that draws no pictures
            mp = mpi_aux.MpiDistributor(ntasks=nqt, comm=cfg.comm, output_path=cfg.output_path, name='Q')
            qs = qset(nk, 'perm')

            def ll():
                N = giw.size // 2
                s_loc = lfp.schwinger_dyson_full(vs[0][0], vs[1][0], vs[0][1], vs[1][1], giw, 1.0, niv_shell=m)
                gu = np.broadcast_to(gen.get_gchi0(n // 2 + m), (nqt,) + x0.shape).copy()
                gc = mf.cut_v(gu, n // 2, axes=-1)
                b2 = beta ** 2
                kdc = hlr.construct_dc_kernel(M, gen, gu, cfg)
                vq = [hlr.construct_vrg_and_chi_q_urange(o, gc, gu.sum(-1) / b2, gc.sum(-1) / b2, cfg, mp) for o in mk4]
                gk = np.broadcast_to(giw, nk + giw.shape).copy()
                s = fp.schwinger_dyson_full_q(vq[0][0], vq[1][0], vq[0][1], vq[1][1], kdc, gk, float(beta), u, np.array(qs), np.array(wn), nqt, niv_shell=m)
                km = fp.get_kernel(vq[1][0], vq[1][1], u, 'magn')
                return dict(loc=farr(s_loc), lat=farr(s), kdc=farr(kdc / 4), km2=farr(2 * km / 4), chi=[farr(vs[i][1] * b2) for i in (0, 1)], chiq=[farr(vq[i][1] * b2) for i in (0, 1)])
            rec.run('limit', ll, key=f'local limit nk{nk} wn{wn} n{n} m{m}', hartree=fx(u / 2), nk=list(nk))
rec.close()
