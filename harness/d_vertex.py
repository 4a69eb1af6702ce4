"""Driver (C10, C11): vertex functions.  d_vertex.py <out> <C10|C11> [walks.json]"""
import json, sys
import numpy as np
from rec import Rec, THOROUGH, SEED, arr, warr as farr, wx as fx, ints
from vdraw import *
from dga import local_four_point as lfp, four_point as fp, bubble as bub, matsubara_frequencies as mf
rec = Rec(sys.argv[1])


def objs(*os): return [dict(channel=o.channel, meta=meta(o), wn=ints(o.wn)) for o in os]


which = sys.argv[2]
if which == 'C10':
    walks = sorted({tuple(w) for w in json.load(open(sys.argv[3]))})
    k = -1
    for h in walks:
        for ch in ('dens', 'magn'):
            k += 1
            n = (2, 4)[k % 2]
            wn, full = WN[(k // 2) % len(WN)]
            beta, u = (2, 3)[k % 2], (1.2, 2.0, -1.5)[(k // 3) % 3]
            ur = SG[ch] * u
            for _ in range(50):
                gam, x0, X, *_r = draw(len(wn), n, 0, beta, ur)
                giw = ph((n + 6,), 0.3, 0.7)
                if np.abs(X).max() + 2 * beta * 0.5 < 5: break
            gc = mf.cut_v(giw, n // 2)

            def walk():
                o = mk(ch, gam.copy(), beta, u, wn, full)
                st = []
                for nm in h:
                    before = o.mat.copy()
                    f = getattr(lfp, nm)
                    x0c = x0.copy()
                    new = f(o, giw) if nm in ('gchir_from_g2', 'g2_from_chir') else f(o) if nm == 'gchi_aux_core' else f(o, x0c)
                    ok = np.array_equal(before, o.mat) and np.array_equal(x0c, x0)
                    o = new
                    st.append(dict(mat=farr(o.mat * (beta if nm == 'g2_from_chir' else 1)), channel=o.channel, meta=meta(o), wn=ints(o.wn), intact=bool(ok)))
                return dict(steps=st)
            rec.run('walk', walk, key=f'{ch} ' + ' > '.join(h) + f' wn{wn}', hist=list(h), gam=farr(gam), x0=farr(x0), ub=fx(ur / beta ** 2), channel=ch, meta=[fx(beta), fx(u), int(full)],
                    wn=wn, g=farr(gc), bg=farr(beta * gc))
    for rep in range(6 if THOROUGH else 2):
        for ch in ('dens', 'magn'):
            for wn, full in WN:
                for n, beta, u in ((2, 2, 1.5), (4, 3, 2.0), (2, 4, 3.0), (4, 2, 0.8), (2, 3, -1.2)):
                    ur = SG[ch] * u
                    gam, x0, X, A, *_ = draw(len(wn), n, 0, beta, ur)
                    par = dict(gam=farr(gam), x0=farr(x0), ub=fx(ur / beta ** 2), sg=SG[ch], wn=wn)
                    objexp = dict(channel=ch, meta=[fx(beta), fx(u), int(full)], wn=wn)
                    par['objexp'] = objexp

                    def legs():
                        g = mk(ch, gam, beta, u, wn, full)
                        gam_, x0_ = gam.copy(), x0.copy()
                        x = lfp.gchir_from_gamob2(g, x0)
                        a = lfp.gchi_aux_core_from_gammar(g, x0)
                        chi, ca = x.contract_legs(), a.contract_legs()
                        lam = lfp.lam_from_chir(x, x0)
                        vlam = lfp.vrg_from_lam(lam, chi)
                        vr, vl = lfp.vrg_from_gchi_aux(a, x0), lfp.vrg_from_gchi_aux(a, x0, sum_axis=-2)
                        f = lfp.fob2_from_vrg_and_chir(a, vr, vl, chi, x0)
                        fdc = lfp.get_f_dc_asympt(vr, a, chi, x0, u)
                        c0 = x0.sum(-1) / beta ** 2
                        phys = lfp.chi_phys_urange(ca, c0, c0, u, ch)
                        assert np.allclose(lfp.chi_phys_asympt(phys, c0, c0 + 1), phys + 1)
                        b2 = beta ** 2
                        return dict(objs=objs(x, a, lam, vlam, vr, vl, f, fdc, g), same=bool(np.array_equal(gam, gam_) and np.array_equal(x0, x0_)), gchi=farr(x.mat), aux=farr(a.mat), chib2=farr(chi * b2), auxb2=farr(ca * b2), lam=farr(lam.mat), vlam=farr(vlam.mat), vr=farr(vr.mat), vl=farr(vl.mat),
                                    f=farr(f.mat), fdc=farr(fdc.mat / b2), phys=farr(phys * b2))
                    rec.run('legs', legs, key=f'legs {ch} n{n} wn{wn}', **par)
                    # shell variants
                    for m in (0, 1, 2):
                        if n == 4 and m == 2 and not THOROUGH: continue
                        gen, giw, x0b, gm, _, X, A, E, EA = bubblegen(ch, wn, full, n, m, beta, u)
                        niv = n // 2
                        Xc = E[:, m:m + n, m:m + n]

                        def ur_case():
                            x = mk(ch, Xc.copy(), beta, u, wn, full)
                            x0g = gen.get_gchi0(niv + m)
                            g = lfp.gamob2_from_gchir_urange(x, x0g)
                            ext = lfp.get_urange(g, g.u_r / beta ** 2, m)
                            f = lfp.fob2_from_gamob2_urange(g, x0g)
                            ax = lfp.gchi_aux_core_from_gammar_urange(g, x0g)
                            return dict(objs=objs(g, ext, f, ax), same=bool(np.array_equal(x.mat, Xc)), gam=farr(g.mat), ext=farr(ext.mat), f=farr(f.mat), auxbig=farr(ax.mat), wit=farr(inv(x0b, ext.mat)), gchi=farr(Xc), x0=farr(x0b))
                        rec.run('urange', ur_case, key=f'urange {ch} n{n} m{m} wn{wn}', ub=fx(ur / beta ** 2), wn=wn, objexp=objexp)
                        b2 = beta ** 2
                        kw = dict(gam=farr(gm), x0=farr(x0b), ub=fx(ur / b2), wn=wn, wit=farr(A), objexp=objexp)
                        zero = farr(np.zeros(len(wn)))
                        g = mk(ch, gm.copy(), beta, u, wn, full)
                        for ax in (-1, -2):
                            if len(wn) == 1 and n == 2 and full and False: continue

                            def p1():
                                v, c = lfp.get_vrg_and_chir_tilde_from_gammar_urange(g, gen, niv_shell=m, sum_axis=ax)
                                return dict(objs=objs(v), same=bool(np.array_equal(g.mat, gm)), vrg=farr(v.mat), chib2=farr(c * b2), tail=zero)
                            rec.run('physloc', p1, key=f'gammar_urange {ch} n{n} m{m} wn{wn} axis{ax}', rows=ax == -1, **kw)

                            def p2():
                                v, c = lfp.get_vrg_and_chir_tilde_from_gammar_uasympt(g, gen, niv_shell=m, sum_axis=ax)
                                return dict(objs=objs(v), same=bool(np.array_equal(g.mat, gm)), vrg=farr(v.mat), chib2=farr(c * b2), tail=farr(gen.get_asymptotic_correction(niv + m) * b2))
                            rec.run('physloc', p2, key=f'gammar_uasympt {ch} n{n} m{m} wn{wn} axis{ax}', rows=ax == -1, **kw)

                        def p3():
                            x = mk(ch, np.array([np.linalg.inv(np.linalg.inv(a) + ur / b2) for a in A]), beta, u, wn, full)
                            v, c = lfp.get_vrg_and_chir_tilde_from_chir_uasympt(x, gen, u, niv_shell=m)
                            return dict(objs=objs(v), same=bool(np.array_equal(g.mat, gm)), vrg=farr(v.mat), chib2=farr(c * b2), tail=farr(gen.get_asymptotic_correction(niv + m) * b2))
                        rec.run('physloc', p3, key=f'chir_uasympt {ch} n{n} m{m} wn{wn}', rows=True, **kw)

                    lamv, xsv, ccv = shelldraw((len(wn),), n, x0, u, ur, SG[ch], beta)

                    def sf():
                        lam = lfp.LocalThreePoint(ch, lamv.copy(), beta, u, wn=None if full else np.array(wn), is_full_w=full)
                        xs, cc = xsv, ccv
                        lt = lfp.get_lam_tilde(lam, xs)
                        sh = lfp.get_chir_shell(lt, xs, x0, u)
                        ct = lfp.get_chir_tilde(lt, cc, xs, x0, u)
                        v = lfp.vrg_from_lam(lt, ct)
                        return dict(objs=objs(lam, lt, v), same=bool(np.array_equal(lam.mat, lamv)), lam=farr(lam.mat), xs=farr(xs), chicore=farr(cc), lamt=farr(lt.mat), shell=farr(sh), chit=farr(ct), vrg=farr(v.mat), x0=farr(x0))
                    rec.run('shellform', sf, key=f'shellform {ch} n{n} wn{wn}', u=fx(u), ur=fx(ur), sg=SG[ch], invb2=fx(1 / beta ** 2), objexp=objexp)
    # objects and entrywise operations on integer arrays
    ri = lambda sh: rng.randint(-9, 10, sh) + 1j * rng.randint(-9, 10, sh)
    for ch, sg in (('dens', 1), ('magn', -1), ('updo', 1), ('upup', -1)):
        for wn, full in WN:
            for n in (1, 2, 3):
                for cls, sh in ((lfp.LocalFourPoint, (len(wn), 2 * n, 2 * n)), (lfp.LocalThreePoint, (len(wn), 2 * n))):
                    def ob():
                        o = cls(ch, ri(sh), 3.0, 7.0, wn=None if full else np.array(wn), is_full_w=full)
                        return dict(u_r=int(o.u_r), wnout=ints(o.wn), wnlin=ints(o.wn_lin), niv=int(o.niv))
                    rec.run('obj', ob, key=f'object {ch} {wn} {n} {cls.__name__}', sg=sg, u=7, wn=wn, nivexp=n)

                    def lg():
                        o = cls(ch, ri(sh), 3.0, 7.0, wn=None if full else np.array(wn), is_full_w=full)
                        m0 = o.mat.copy()
                        return dict(inp=arr(m0), out=arr(o.contract_legs() * 3 ** (len(sh) - 1)), same=bool(np.array_equal(m0, o.mat)))
                    rec.run('entry', lg, key=f'contract {ch} {wn} {n}', what='legs')

    def mutate(what, sh, fn, scale=1, **kw):
        def go():
            m = ri(sh)
            o = lfp.LocalFourPoint('dens', m.copy(), 3.0, 7.0, is_full_w=True)
            fn(o)
            return dict(inp=arr(m), out=arr(o.mat * scale), same=True)
        rec.run('entry', go, key=f'{what} {sh} {kw}', what=what, **kw)
    for nw in (0, 1, 3):
        for nv in (1, 2, 4):
            sh = (2 * nw + 1, 2 * nv, 2 * nv)
            for c in range(1, nv + 1): mutate('cut_iv', sh, lambda o: o.cut_iv(c), n=c)
            for c in range(0, nw + 1): mutate('cut_iw', sh, lambda o: o.cut_iw(c), n=c)
            for c in (0, 1, 2): mutate('append', sh, lambda o: o.append_shell(5, c), n=c, val=5)
            mutate('sym', sh, lambda o: o.symmetrize_v_vp(), scale=2)
    for N in (2, 3, 5):
        for c in list(range(1, N + 1)) + [-1]:
            def gg():
                g = ri((2 * N,))
                g0 = g.copy()
                return dict(inp=arr(g0), out=arr(lfp.get_ggv(g, c)), same=bool(np.array_equal(g, g0)))
            rec.run('entry', gg, key=f'get_ggv {N} {c}', what='gg', n=N if c == -1 else c)

        def dg():
            g = ri((N, 2 * N))
            return dict(inp=arr(g), out=arr(lfp.get_gchi0_full(g)), same=True)
        rec.run('entry', dg, key=f'get_gchi0_full {N}', what='diag')
        for ch in ('dens', 'magn'):
            def fd():
                a, b = ri((4 * N + 1,)), ri((4 * N + 1,))
                a0, b0 = a.copy(), b.copy()
                return dict(inp=arr(a0), inp2=arr(b0), out=arr(lfp.get_f_diag(a, b, ch) * 2), same=bool(np.array_equal(a, a0) and np.array_equal(b, b0)))
            rec.run('entry', fd, key=f'get_f_diag {N} {ch}', what='fdiag', channel=ch)
else:
    for rep in range(6 if THOROUGH else 3):
        for ch in ('dens', 'magn'):
            for nq in (1, 2, 3):
                for nw in (1, 3):
                    for n, m, beta, u in ((2, 0, 2, 1.5), (4, 1, 3, 2.0), (2, 2, 4, 3.0), (4, 0, 2, 0.8)):
                        ur = SG[ch] * u
                        b2 = beta ** 2
                        for _ in range(3000):
                            # one vertex, several momenta
                            gam, x0, X, A, E, EA = draw(nw, n, m, beta, ur, amp=0.25)
                            xs = [x0]
                            try:
                                while len(xs) < nq:
                                    y = ph((nw, n + 2 * m))
                                    yc = y[:, m:m + n]
                                    a = inv(yc, gam - ur / b2)
                                    z = a.sum((1, 2)) + y.sum(1) - yc.sum(1)
                                    if np.abs(a).max() < 2.2 and np.abs(inv(yc, gam)).max() < 2.2 and np.abs(1 + ur / b2 * z).min() > .5 and np.abs(z).max() < 5 and np.abs(a.sum(2) / yc).max() < LIM \
                                            and np.abs(y.sum(1)).max() < 5 and np.abs(a.sum((1, 2))).max() < 5: xs.append(y)
                            except np.linalg.LinAlgError: continue
                            break
                        xq = np.array(xs)
                        if rep == 1 and nq > 1: xq[0] = xq[-1]     # two momenta with the same bubble
                        if rep == 2 and nq > 1: xq[-1] = xq[0] * (1 + 4e-4)     # and with almost the same bubble
                        if rep == 0 and nq > 1 and nw > 1: xq[-1, 0] = xq[-2, 0]     # and with the same bubble at one frequency only
                        if rep == 1 and nq > 2 and nw > 1: xq[1, 1] = xq[0, 1]
                        wn = list(range(-(nw // 2), nw // 2 + 1))

                        def lad():
                            g = mk(ch, gam, beta, u, wn, True)
                            xu = xq.copy()
                            xc = mf.cut_v(xu, n // 2, axes=-1)
                            c0u, c0c = xu.sum(-1) / b2, xc.sum(-1) / b2
                            x = fp.get_gchir_from_gamma_loc_q(g, xc)
                            a = fp.get_gchir_aux_from_gammar_q(g, xc)
                            ca = a.sum((-1, -2)) / b2
                            phys = fp.chi_phys_from_chi_aux_q(ca, c0u, c0c, u, ch)
                            tail = ph((nq, nw), 0.1, 0.3) / b2
                            pt = fp.chi_phys_asympt_q(phys, c0u, c0u + tail)
                            v = fp.vrg_from_gchi_aux(a, xc)
                            vt = fp.vrg_from_gchi_aux_asympt(a, xc, phys, pt, u, ch)
                            lam = fp.lam_from_chir_q(x, xc, ch)
                            f1, f2 = fp.ladder_vertex_from_chi_aux_components(a, v, xc, beta, ur)
                            return dict(gchi=farr(x), aux=farr(a), phys=farr(phys * b2), physt=farr(pt * b2), tail=farr(tail * b2), vrg=farr(v), vrgt=farr(vt), lam=farr(lam), f1=farr(f1 / b2), f2=farr(f2 / b2))
                        rec.run('ladder', lad, key=f'ladder {ch} nq{nq} nw{nw} n{n} m{m}', gam=farr(gam), x0=farr(xq), ub=fx(ur / b2), sg=SG[ch])

                        xc = xq[..., m:m + n]
                        lamv, xsv, ccv = shelldraw((nq, nw), n, xc, u, ur, SG[ch], beta)

                        def sf():
                            lam, xs_, cc = lamv.copy(), xsv.copy(), ccv.copy()
                            lt = fp.get_lam_tilde(lam, xs_, u, ch)
                            shl = fp.get_chir_shell(lt, xs_, xc, beta, u, ch)
                            ct = fp.chir_tilde(cc, lt, xs_, xc, beta, u, ch)
                            v = fp.vrg_q_tilde(lt, ct, u, ch)
                            R = lambda z: farr(np.reshape(z, (nq * nw,) + np.shape(z)[2:]))
                            return dict(lam=R(lam), xs=R(xs_), chicore=R(cc), lamt=R(lt), shell=R(shl), chit=R(ct), vrg=R(v), x0=R(xc))
                        rec.run('shellform', sf, key=f'shell formulas {ch} nq{nq} nw{nw} n{n}', u=fx(u), ur=fx(ur), sg=SG[ch], invb2=fx(1 / b2))
    # both channels and the double-counting kernel in one call
    for rep in range(6 if THOROUGH else 3):
        for nq in (1, 2):
            for nw in (1, 3):
                for n, m, beta, u in ((2, 0, 2, 1.0), (2, 1, 3, 2.0), (4, 1, 4, 1.5), (4, 2, 2, 0.8)):
                    b2 = beta ** 2

                    def good(y, gs):
                        yc = y[:, m:m + n]
                        for ch in gs:
                            ub = SG[ch] * u / b2
                            a = inv(yc, gs[ch] - ub)
                            z = a.sum((1, 2)) + y.sum(1) - yc.sum(1)
                            if not (np.abs(a).max() < 2.2 and np.abs(1 + ub * z).min() > .5 and np.abs(z).max() < 5 and np.abs(a.sum(2) / yc).max() < LIM and np.abs(y.sum(1)).max() < 5 and np.abs(a.sum((1, 2))).max() < 5): return False
                        return True
                    for _ in range(3000):
                        gs = {ch: ph((nw, n, n), 0.05, 0.2) for ch in ('dens', 'magn')}
                        xs = [y for y in (ph((nw, n + 2 * m)) for _ in range(60)) if good(y, gs)]
                        if len(xs) >= nq: break
                    else: raise RuntimeError('no draw')
                    xq = np.array(xs[:nq])
                    tail = ph((nq, nw), 0.1, 0.3)
                    fmat, vl, cl = ph((nw, n + 2 * m, n + 2 * m), 0.05, 0.3), ph((nw, n), 0.5, 1.2), ph((nw,), 0.1, 0.3)
                    wn = list(range(-(nw // 2), nw // 2 + 1))
                    wit = {ch: np.array([inv(y[:, m:m + n], gs[ch] - SG[ch] * u / b2) for y in xq]) for ch in gs}
                    fch = ('magn', 'dens')[rep % 2]

                    def pair():
                        got = []

                        class Gen:
                            def get_gchi0_q_list(self, niv, ql): got.append((niv, ints(ql))); return xq.copy()

                            def get_asymptotic_correction_q(self, niv, ql): got.append((niv, ints(ql))); return tail / b2
                        ql = np.array([[i, 2 * i, 0] for i in range(nq)])
                        fdc = mk(fch, fmat.copy(), beta, u, wn, True)
                        vloc = lfp.LocalThreePoint('magn', vl.copy(), beta, u, is_full_w=True)
                        vd, vm, cd, cm, k = fp.get_vrg_and_chir_lad_from_gammar_uasympt_q(mk('dens', gs['dens'].copy(), beta, u, wn, True), mk('magn', gs['magn'].copy(), beta, u, wn, True), fdc, vloc, cl / b2 * 1.0, Gen(), u, ql, niv_shell=m)
                        return dict(asked=all(a == (n // 2 + m, ints(ql)) for a in got), vrg=dict(dens=farr(vd), magn=farr(vm)), chi=dict(dens=farr(cd * b2), magn=farr(cm * b2)), kdc=farr(k))
                    rec.run('pair', pair, key=f'both channels nq{nq} nw{nw} n{n} m{m}', gam={c: farr(gs[c]) for c in gs}, wit={c: farr(wit[c]) for c in gs}, ub=dict(dens=fx(u / b2), magn=fx(-u / b2)),
                            x0=farr(xq), tail=farr(tail), fdc=farr(fmat), vloc=farr(vl), chiloc=farr(cl), ur=fx(SG[fch] * u), pre=fx(-u / beta / b2))
rec.close()
