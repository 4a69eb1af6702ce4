"""Driver (C07, C08): dga.matsubara_frequencies on labelled arrays.  d_matsubara.py <out> <C07|C08> [histories.json]"""
import itertools, json, random, sys
import numpy as np
from rec import Rec, THOROUGH, SEED, arr, ints
from labels import *
import dga.matsubara_frequencies as mf
from dga import pairing_vertex as pv
rec = Rec(sys.argv[1])
which = sys.argv[2]
rng = random.Random(SEED)


def mk(kinds, ns):
    return [vax(n) if k == 'v' else wax(n) if k == 'w' else whalf(n) if k == 'h' else vpos(n) if k == 'p' else list(range(n)) for k, n in zip(kinds, ns)]


def op(name, ax_, fn, key='', kinds=None, **kw):
    m = lab(ax_)
    m0 = m.copy()

    def call():
        o = fn(m)
        return dict(out=arr(o), same=bool(np.array_equal(m, m0)))
    rec.run(name, call, key=f'{name} {key}', ax=ax_, kinds=kinds or '', **kw)


def sizes(k): return range(1, k + 1)


if which == 'C07':
    B = 6 if THOROUGH else 5
    for n in sizes(B):
        for c in [-1] + list(range(1, n + 1)):
            op('cut_v', [vax(n)], lambda m: mf.cut_v(m, c), f'{n}->{c}', axes=[0], n=c)
            if c >= 0: op('cut_v', [vax(n)], lambda m: mf.cut_v_1d(m, c), f'1d {n}->{c}', axes=[0], n=c)
            op('cut_v', [list(range(2)), vax(n), vax(n)], lambda m: mf.cut_v(m, c, axes=(1, 2)), f'(1,2) {n}->{c}', axes=[1, 2], n=c)
            op('cut_v', [list(range(2)), vax(n), vax(n + 1)], lambda m: mf.cut_v(m, c, axes=(-1,)) if c != 0 or True else None, f'(-1) {n}->{c}', axes=[2], n=c)
            op('cut_v', [vax(n), list(range(3)), vax(n)], lambda m: mf.cut_v(m, c, axes=[2, 0]), f'[2,0] {n}->{c}', axes=[0, 2], n=c)
            op('cut_v', [list(range(3)), vax(n)], lambda m: mf.cut_v(m, c, axes=1), f'axis int {n}->{c}', axes=[1], n=c)
        for c in range(0, n + 1):
            op('cut_w', [wax(n)], lambda m: mf.cut_w(m, c), f'{n}->{c}', axes=[0], n=c)
            op('cut_w', [list(range(2)), wax(n), wax(n)], lambda m: mf.cut_w(m, c, axes=(1, 2)), f'(1,2) {n}->{c}', axes=[1, 2], n=c)
            op('cut_w', [wax(n), vax(2)], lambda m: mf.cut_w(m, c, axes=(0,)), f'(0) {n}->{c}', axes=[0], n=c)
            op('cut_w', [list(range(2)), list(range(2)), wax(n)], lambda m: mf.cut_w(m, c, axes=(-1,)), f'(-1) {n}->{c}', axes=[2], n=c)
        # the argument values that callers leave out
        op('cut_v', [vax(n), list(range(3))], lambda m: mf.cut_v(m, n), f'{n} default axes', axes=[0], n=n)
        op('cut_v_pos', [vax(n)], lambda m: mf.cut_v_1d_pos(m, n), f'{n} default min', n=n, nmin=0)
        op('bosonic_full', [vax(2), list(range(2)), whalf(n)], lambda m: mf.bosonic_full_nu_range(m), f'{n} default', axes=[2], faxes=[2], kinds=['v', 'o', 'w'])
        for ib in (1, 2):
            op('vsum_wn', [[0, 1], vax(n), vax(n)], lambda m: mf.vn_centered_sum_wn(m, 1.0 / ib), f'{n} default {ib}', n=-1, iwn=0, ib=ib)
            op('vsum', [wax(1), vax(n), vax(n)], lambda m: mf.vn_centered_sum(m, [-1, 0, 1], 1.0 / ib), f'{n} default {ib}', n=-1, ib=ib)
            op('wsum', [wax(n), [0, 1], [0, 1, 2]], lambda m: mf.wn_sum(m, 1.0 / ib), f'{n} default {ib}', n=-1, ib=ib)
            if n > 2: op('vsum_wn', [[0, 1], vax(n), vax(n)], lambda m: mf.vn_centered_sum_wn(m, 1.0 / ib, iwn=2), f'{n} default sum {ib}', n=-1, iwn=2, ib=ib)
        for core in range(0, n + 1):
            for sh in [-1] + list(range(0, n - core + 1)):
                op('inv_cut_v', [vax(n)], lambda m: mf.inv_cut_v(m, core, sh), f'{n} core {core} shell {sh}', axes=[0], core=core, shell=sh)
                op('inv_cut_v', [list(range(2)), vax(n)], lambda m: mf.inv_cut_v(m, core, sh, axes=-1), f'{n} core {core} shell {sh} last', axes=[1], core=core, shell=sh)
                if sh > 0:
                    op('inv_cut_v', [vax(n), list(range(2)), vax(n)], lambda m: mf.inv_cut_v(m, niv_core=core, niv_shell=sh, axes=(0, 2)), f'{n} core {core} shell {sh} two', axes=[0, 2], core=core, shell=sh)
        for nmin in range(0, n):
            for c in ([-1] if nmin == 0 else []) + list(range(1, n - nmin + 1)):
                op('cut_v_pos', [vax(n)], lambda m: mf.cut_v_1d_pos(m, c, nmin), f'{n} {c} {nmin}', n=c, nmin=nmin)
        for ax in range(3):
            a = [list(range(2)), list(range(3)), vax(2)]
            a[ax] = vpos(n)
            k = ['o', 'o', 'o']
            op('fermionic_full', a, lambda m: mf.fermionic_full_nu_range(m, axis=ax), f'{n} axis {ax}', axes=[ax], kinds=['v' if i == ax else 'o' for i in range(3)])
            b = [vax(2), vax(3), list(range(2))]
            b[ax] = whalf(n)
            kinds = ['v', 'v', 'o']
            kinds[ax] = 'w'
            for fa in [None] + [s for k in (1, 2, 3) for s in itertools.combinations(range(3), k) if ax in s]:
                op('bosonic_full', b, lambda m: mf.bosonic_full_nu_range(m, axis=ax, freq_axes=fa), f'{n} axis {ax} freq {fa}', axes=[ax],
                   faxes=[ax] if fa is None else list(fa), kinds=kinds)
            op('bosonic_full', b, lambda m: mf.bosonic_full_nu_range(m, axis=ax - 3, freq_axes=(ax - 3,)), f'{n} axis {ax - 3}', axes=[ax], faxes=[ax], kinds=kinds)
            op('fermionic_full', a, lambda m: mf.fermionic_full_nu_range(m, axis=ax - 3), f'{n} axis {ax - 3}', axes=[ax], kinds=['v' if i == ax else 'o' for i in range(3)])
        op('fermionic_full', [list(range(2)), vpos(n)], lambda m: mf.fermionic_full_nu_range(m), f'{n} default', axes=[1], kinds=['o', 'v'])
        for sh in range(1, 4):
            core = n
            a = [list(range(2)), vax(core + sh)]

            def cc(m): return mf.concatenate_core_asmypt(mf.cut_v(m, core, axes=(1,)), mf.inv_cut_v(m, core, sh, axes=(1,)))
            op('concat', a, cc, f'{core}+{sh}', core=core, shell=sh)
            op('concat', a, lambda m: mf.concatenate_core_asmypt(np.ascontiguousarray(m[:, sh:-sh]), np.concatenate((m[:, :sh], m[:, -sh:]), axis=-1)), f'{core}+{sh} direct', core=core, shell=sh)
            for v in (0, 5 - 3j):
                op('append_shell', [list(range(2)), vax(n), vax(n)], lambda m: mf.append_v_vp_shell(m, v, sh), f'{n}+{sh} {v}', n=sh, val=[int(np.real(v)), int(np.imag(v))])
        op('clip_pos', [list(range(2)), vax(n)], mf.clip_pos_mf_vn, f'{n}')
        for ax in range(3):
            a = [list(range(2)), vax(1), vax(2)]
            a[ax] = wax(n)
            op('at_w0', a, lambda m: mf.mat_at_w0(m, axis=ax), f'{n} {ax}', axes=[ax])
            for w in range(-n, n + 1):
                op('at_iwn', a, lambda m: mf.get_mat_at_iwn(m, w, axis=ax), f'{n} {ax} {w}', axes=[ax], iwn=w)
            a[ax] = whalf(n)
            op('at_w0', a, lambda m: mf.mat_at_w0(m, pos=True, axis=ax), f'{n} {ax} pos', axes=[ax])
            for w in range(0, n + 1):
                op('at_iwn', a, lambda m: mf.get_mat_at_iwn(m, w, pos=True, axis=ax), f'{n} {ax} {w} pos', axes=[ax], iwn=w)
        for n2 in range(0, B + 1):
            for ax in range(3):
                a = [list(range(2)), vax(1), list(range(2))]
                b = list(a)
                a[ax], b[ax] = wax(n), wax(n2)

                def add():
                    m1, m2 = lab(a), 3 * lab(b)
                    k1, k2 = m1.copy(), m2.copy()
                    o = mf.add_bosonic(m1, m2, axis=ax)
                    return dict(out=arr(o), same=bool(np.array_equal(m1, k1) and np.array_equal(m2, k2)))
                rec.run('add_bosonic', add, key=f'add_bosonic {n} {n2} axis {ax}', ax=a, ax2=b, axes=[ax])
            def add0():
                m1, m2 = lab([wax(n), [0, 1]]), 3 * lab([wax(n2), [0, 1]])
                k1, k2 = m1.copy(), m2.copy()
                o = mf.add_bosonic(m1, m2)
                return dict(out=arr(o), same=bool(np.array_equal(m1, k1) and np.array_equal(m2, k2)))
            rec.run('add_bosonic', add0, key=f'add_bosonic {n} {n2} default', ax=[wax(n), [0, 1]], ax2=[wax(n2), [0, 1]], axes=[0])
        for ib in (1, 2):
            for s in [-1] + list(range(1, n)):
                for w in (range(-2, 3) if s != -1 else [0, 1, -3]):
                    if s != -1 and not (0 <= n - s + w // 2 and n + s + w // 2 <= 2 * n): continue
                    op('vsum_wn', [[0, 1], vax(n), vax(n)], lambda m: mf.vn_centered_sum_wn(m, 1.0 / ib, iwn=w, niv_sum=s), f'{n} {s} {w} {ib}', n=s, iwn=w, ib=ib)
                op('vsum', [wax(1), vax(n), vax(n)], lambda m: mf.vn_centered_sum(m, [-1, 0, 1], 1.0 / ib, niv_sum=s), f'{n} {s} {ib}', n=s, ib=ib)
            for s in [-1] + list(range(0, n + 1)):
                op('wsum', [wax(n), [0, 1], [0, 1, 2]], lambda m: mf.wn_sum(m, 1.0 / ib, niw_sum=s), f'{n} {s} {ib}', n=s, ib=ib)
    # grids
    for n in range(0, 9):
        for sh in (-5, -2, 0, 1, 3):
            for pos in (False, True):
                for kind in 'vw':
                    f = getattr(mf, kind + 'n')
                    k = dict(n=n, shift=sh, pos=pos, kind=kind)
                    kk = f'grid {kind} {n} {sh} {pos}'
                    rec.run('grid', lambda: dict(grid=ints(f(n, shift=sh, pos=pos))), key=kk, beta=False, **k)
                    if sh == 0:
                        rec.run('grid', lambda: dict(grid=ints(f(n, pos=pos))), key=kk + ' no shift', beta=False, **k)
                        rec.run('grid', lambda: dict(grid=[int(np.rint(x)) for x in f(12.5, n, pos=pos) * 12.5 / np.pi]), key=kk + ' beta no shift', beta=True, **k)
                        if not pos: rec.run('grid', lambda: dict(grid=[int(np.rint(x)) for x in f(12.5, n) * 12.5 / np.pi]), key=kk + ' beta only', beta=True, **k)
                    for beta in (1.0, 12.5, 100.0):
                        rec.run('grid', lambda: dict(grid=[int(np.rint(x)) if abs(x - np.rint(x)) < 1e-9 else 999999 for x in f(beta, n, shift=sh, pos=pos) * beta / np.pi]), key=kk + ' beta', beta=True, **k)
                    if n >= 1:
                        L = (n if kind == 'v' else n + 1) if pos else (2 * n if kind == 'v' else 2 * n + 1)
                        for ax in (0, 1, -1):
                            shp = [3, 4]
                            shp[ax] = L
                            mat = np.zeros(shp)
                            rec.run('grid', lambda: dict(grid=ints(f(mat, axis=ax, shift=sh, pos=pos))), key=kk + ' mat', beta=False, **k)
                            rec.run('grid', lambda: dict(grid=[int(np.rint(x)) for x in f(12.5, mat, axis=ax, shift=sh, pos=pos) * 12.5 / np.pi]), key=kk + ' beta mat', beta=True, **k)
        if n >= 1:
            rec.run('grid', lambda: dict(grid=ints(mf.vn(np.zeros((3, 2 * n))))), key='grid v default', beta=False, n=n, shift=0, pos=False, kind='v')
            rec.run('grid', lambda: dict(grid=ints(mf.wn(np.zeros((2 * n + 1, 3))))), key='grid w default', beta=False, n=n, shift=0, pos=False, kind='w')
            for ax in range(3):
                sv, sw = [2, 3, 4], [2, 3, 4]
                sv[ax], sw[ax] = 2 * n, 2 * n + 1
                rec.run('count', lambda: dict(got=[int(mf.niv_from_mat(np.zeros(sv), axis=ax)), int(mf.niw_from_mat(np.zeros(sw), axis=ax))]), want=[n, n])
                sv[ax], sw[ax] = n, n + 1
                rec.run('count', lambda: dict(got=[int(mf.niv_from_mat(np.zeros(sv), axis=ax, pos=True)), int(mf.niw_from_mat(np.zeros(sw), axis=ax, pos=True))]), want=[n, n])
    # histories generated by TLC
    H = json.load(open(sys.argv[3]))
    for h in H:
        def run():
            nw, nv = h['nw'], h['nv']
            m = symlab('wv', [wax(nw), vax(nv)])
            steps = []
            for s in h['hist']:
                if s['o'] == 'cutv': m = mf.cut_v(m, s['n'], axes=(1,))
                elif s['o'] == 'cutw': m = mf.cut_w(m, s['n'], axes=(0,))
                elif s['o'] == 'half': m = m[m.shape[0] // 2:]
                elif s['o'] == 'full': m = mf.bosonic_full_nu_range(m, axis=0, freq_axes=(0, 1))
                elif s['o'] == 'splitjoin':
                    h2 = m.shape[1] // 2
                    m = mf.concatenate_core_asmypt(mf.cut_v(m, s['n'], axes=(1,)), mf.inv_cut_v(m, niv_core=s['n'], niv_shell=h2 - s['n'], axes=(1,)))
                steps.append(arr(m))
            return dict(steps=steps)
        rec.run('hist', run, key='hist ' + '-'.join(s['o'] for s in h['hist']), **h)
else:
    B = 7 if THOROUGH else 5
    for w in range(-9, 10):
        for nt in ('plus', 'minus', 'center'):
            def sh():
                a, b = mf.get_freq_shift(w, nt)
                return dict(s1=int(a), s2=int(b))
            rec.run('shift', sh, key=f'shift {nt} {w}', notation=nt, w=w)
            rec.run('shift', lambda: dict(zip(('s1', 's2'), map(int, mf.get_freq_shift(np.int64(w), nt)))), key=f'shift {nt} {w} np', notation=nt, w=w)
        rec.run('shift_unknown', lambda: dict(r=[int(x) for x in mf.get_freq_shift(w, 'Center')]), key='shift unknown')
    for n in range(1, B + 1):
        for w in range(-n + 1, n):
            for c in [-1] + list(range(1, n - abs(w) + 1)):
                op('cut_shift', [[0, 1], vax(n)], lambda m: mf.cut_iv_with_iw_shift(m, c, w), f'{n} {c} {w}', axes=[1], n=c, iwn=w)
                op('cut_shift', [vax(n), [0, 1], vax(n)], lambda m: mf.cut_iv_with_iw_shift(m, c, w, axes=(0, 2)), f'{n} {c} {w} (0,2)', axes=[0, 2], n=c, iwn=w)
                op('cut_shift', [vax(n)], lambda m: mf.cut_iv_with_iw_shift_1d(m, c, w), f'1d {n} {c} {w}', axes=[0], n=c, iwn=w)
            op('cut_shift', [[0, 1], vax(n)], lambda m: mf.cut_iv_with_iw_shift(m, iwn=w), f'{n} default {w}', axes=[1], n=-1, iwn=w)
            op('cut_shift', [vax(n)], lambda m: mf.cut_iv_with_iw_shift_1d(m, iwn=w), f'1d {n} default {w}', axes=[0], n=-1, iwn=w)
        op('cut_shift', [vax(n)], lambda m: mf.cut_iv_with_iw_shift(m, n), f'{n} default iwn', axes=[0], n=n, iwn=0)
        op('cut_shift', [vax(n)], lambda m: mf.cut_iv_with_iw_shift_1d(m, n), f'1d {n} default iwn', axes=[0], n=n, iwn=0)
        for nw in range(0, n):
            for c in range(1, n - nw + 1):
                ws = [list(range(-nw, nw + 1)), list(range(0, nw + 1)), [nw, -nw, 0]]
                for w in ws:
                    op('slices_gen', [vax(n)], lambda m: mf.wn_slices_gen(m, c, np.array(w)), f'{n} {c} {w}', n=c, w=w)
                    op('slices_gen', [[0, 1], [0, 1, 2], vax(n)], lambda m: mf.wn_slices_gen(mat=m, n_cut=c, w=w), f'{n} {c} {w} 3d', n=c, w=w)
            for core in range(0, n - nw):
                for s in range(1, n - nw - core + 1):
                    w = list(range(-nw, nw + 1))
                    op('slices_shell', [vax(n)], lambda m: mf.wn_slices_shell(m, s, core, w=np.array(w)), f'{n} {core} {s}', core=core, shell=s, w=w)
                    if core == 0: op('slices_shell', [[0, 1], vax(n)], lambda m: mf.wn_slices_shell(m, s, w=np.array(w)), f'{n} default core {s}', core=0, shell=s, w=w)
                    op('slices_shell', [[0, 1], vax(n)], lambda m: mf.wn_slices_shell(m, n_shell=s, n_core=core, w=w[::-1]), f'{n} {core} {s} 2d', core=core, shell=s, w=w[::-1])
    for n in range(1, 9):
        op('w_to_vmvp', [wax(n)], mf.w_to_vmvp, f'{n}')
        op('w_to_vmvp', [wax(n), [0, 1], [0, 1, 2]], mf.w_to_vmvp, f'{n} 3d')
    for npp in range(1, 5):
        for nw in (2 * npp - 1, 2 * npp, 2 * npp + 3):
            op('pp_chi', [[0, 1], [0, 1, 2], [0], wax(nw)], lambda m: pv.reshape_chi(m, npp), f'{nw} {npp}', n=npp)
            for nv in (npp, npp + 2):
                def sl(m):
                    om, out = pv.get_omega_condition(npp), np.zeros((2 * npp,) * 2, dtype=complex)
                    for w in range(-nw, nw + 1):
                        if abs(w) < 2 * npp: out[om == w] += pv.get_pp_slice_4pt(m[w + nw], om == w, npp)
                    return out
                op('pp_slice', [wax(nw), vax(nv), vax(nv)], sl, f'{nw} {nv} {npp}', n=npp)
    for nw, nv in itertools.product(range(1, 8 if not THOROUGH else 11), repeat=2):
        a = [wax(nw), vax(nv), vax(nv)]
        for w in range(-((2 * nw + 1) // 6), (2 * nw + 1) // 6 + 1):
            op('ph2pp_iwn', a, lambda m: mf.ph2pp_iwn(m, w), f'{nw} {nv} {w}', iwn=w)
        op('ph2pp', a, mf.ph2pp, f'{nw} {nv}')
        for w in range(-min(nw, nv) // 2 + 1, min(nw, nv) // 2 + 1):
            op('ph2pp_iwn_wc', a, lambda m: mf.ph2pp_iwn_wc(m, w), f'{nw} {nv} {w}', iwn=w)
        op('ph2pp_wc', a, mf.ph2pp_wc, f'{nw} {nv}')
        if (nw + nv) % 3 == 0:
            op('ph2pp_iwn', [[0, 1]] + a, lambda m: mf.ph2pp_iwn(m, 0), f'{nw} {nv} 4d', iwn=0)
            op('ph2pp', [[0, 1]] + a, mf.ph2pp, f'{nw} {nv} 4d')
            op('ph2pp_wc', [[0, 1]] + a, mf.ph2pp_wc, f'{nw} {nv} 4d')

            def md():
                d = lab(a)
                o1, o2 = mf.ph2pp_wc_md(d, 3 * d)
                return dict(out=arr(2 * o1), out2=arr(2 * o2))
            rec.run('ph2pp_wc_md', md, key=f'ph2pp_wc_md {nw} {nv}', ax=a)
