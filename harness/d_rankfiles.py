"""Driver (C03): vertex components written by every rank and assembled again.  d_rankfiles.py <out> <scratch>"""
import os, sys, traceback
import numpy as np
from rec import Rec, THOROUGH, SEED, arr, ints
from dcfg import FakeComm, make, quiet_plots
from dga import four_point as fp, pairing_vertex as pv, optics, mpi_aux
rec = Rec(sys.argv[1])
R = np.random.RandomState(SEED + 3)
quiet_plots()
UNIT = np.array([1, -1, 1j, -1j])
gi = lambda sh, m=3: R.randint(-m, m + 1, sh) + 1j * R.randint(-m, m + 1, sh)
CH = ('dens', 'magn')


def case(tag, nk, sym, box, size, kinds, opt=None, build=True, order=None):
    scratch = os.path.join(sys.argv[2], tag)
    o = dict(do_vertex=True); o.update(opt or {})
    d = make(scratch, box, nk, sym, size=1, sysp=dict(beta=float(R.choice([1, 2])), u=float(R.choice([1, 2, 3, -2]))), optics=o)
    nq, nw, nv = d.lattice.q_grid.nk_irr, d.box.niw_core, d.box.niv_core
    x0 = UNIT[R.randint(0, 4, (nq, 2 * nw + 1, 2 * nv))]
    aux = {c: gi((nq, 2 * nw + 1, 2 * nv, 2 * nv)) for c in CH}
    vrg = {c: gi((nq, 2 * nw + 1, 2 * nv)) for c in CH}
    chi = {c: gi(tuple(nk) + (2 * nw + 1,)) for c in CH}
    keep = [x.copy() for x in (x0, *aux.values(), *vrg.values(), *chi.values())]
    base = dict(nk=list(nk), nq=int(nq), nw=int(nw), nv=int(nv), beta=int(d.sys.beta), u=int(d.sys.u), size=size,
                rep=ints(d.lattice.q_grid.irrk_inv), x0=arr(x0), aux={c: arr(aux[c]) for c in CH}, vrg={c: arr(vrg[c]) for c in CH},
                ow=int(d.optics.niw_vert), oc=int(d.optics.niw_cond), ov=int(d.optics.niv_vert))
    key = f'{tag} nk{tuple(nk)} {sym} box{(nw, nv)} ranks{size}'
    wr = dict(fq=fp.write_vertex_components, pv=pv.write_pairing_vertex_components, f=optics.write_optics_vertex_components)

    def write():
        ranks = list(range(size))
        if order == 'reverse': ranks.reverse()
        dist = {r: mpi_aux.MpiDistributor(ntasks=nq, comm=FakeComm(r, size), output_path=d.output_path, name='Q') for r in ranks}
        for c in (CH if order != 'reverse' else CH[::-1]):
            for r in ranks:
                s = dist[r].my_slice
                for k in kinds: wr[k](d, dist[r], c, aux[c][s], vrg[c][s], x0[s])
        return {}
    w = rec.run('write', write, key=key + ' write', nq=int(nq), size=size)
    if w['exc']: return
    same = lambda: bool(all(np.array_equal(a, b) for a, b in zip(keep, (x0, *aux.values(), *vrg.values(), *chi.values()))))
    four = lambda x, s=1: {n: arr(y, s) for n, y in zip(('f1m', 'f2m', 'f1d', 'f2d'), x)}
    if 'fq' in kinds:
        rec.run('fq', lambda: dict(out=four(fp.load_vertex_from_rank_files(d.output_path, 'Q', size, nq, nw, nv)), same=same()), key=key + ' fq', **base)
    if 'pv' in kinds and d.box.niv_pp > 0:   # an empty pairing window has no vertex to build
        rec.run('pv', lambda: dict(out=four(pv.load_pairing_vertex_from_rank_files(d.output_path, 'Q', size, nq, d.box.niv_pp), 2), npp=int(d.box.niv_pp)), key=key + ' pv', **base)
    if 'f' in kinds:
        rec.run('f', lambda: dict(out=four(optics.load_optics_vertex_from_rank_files(d.output_path, 'Q', size, nq, d.optics))), key=key + ' f', **base)
    if not build: return
    cb = dict(base, chi={c: arr(chi[c]) for c in CH})
    comm = FakeComm(0, size)
    if 'fq' in kinds:
        def b():
            fp.build_vertex_fq(d, comm, chi['magn'], chi['dens'])
            return dict(dens=arr(d.load_data('F_dens')), magn=arr(d.load_data('F_magn')), same=same())
        rec.run('bfq', b, key=key + ' build fq', **cb)
    if 'pv' in kinds and d.box.niv_pp > 0:   # an empty pairing window has no vertex to build
        def b():
            pv.build_pairing_vertex(d, comm, chi['magn'], chi['dens'])
            return dict(sing=arr(d.eliash.load_data('F_sing_pp'), 4), trip=arr(d.eliash.load_data('F_trip_pp'), 4), npp=int(d.box.niv_pp), same=same())
        rec.run('bpv', b, key=key + ' build pairing', **cb)
    if 'f' in kinds:
        def b():
            optics.build_vertex_for_optical_conductivity(d, comm, chi['magn'], chi['dens'])
            return dict(cond=arr(d.optics.load_data('F_cond'), 2), same=same())
        rec.run('bf', b, key=key + ' build optics', **cb)


SQ = 'two_dimensional_square'
ALL = ('pv', 'f', 'fq')
case('a', (2, 2, 1), SQ, dict(niw_core=2, niv_core=2), 1, ALL)
case('b', (2, 2, 1), [], dict(niw_core=4, niv_core=4), 2, ALL, order='reverse')
case('c', (3, 2, 1), [], dict(niw_core=3, niv_core=5), 4, ALL, opt=dict(niw_cond=2, niw_vert=2))
case('d', (4, 4, 1), SQ, dict(niw_core=4, niv_core=3), 3, ALL, opt=dict(niw_cond=1, niw_vert=3))
case('e', (2, 2, 2), [], dict(niw_core=5, niv_core=4, niv_shell=3), 8, ALL, opt=dict(niw_cond=0), order='reverse')
case('f', (2, 3, 1), [], dict(niw_core=2, niv_core=6), 5, ALL, opt=dict(niw_cond=2, niw_vert=0))
case('many', (13, 1, 1), [], dict(niw_core=2, niv_core=2), 12, ALL, opt=dict(niw_cond=1))
case('gp', (1001, 1, 1), [], dict(niw_core=2, niv_core=2), 3, ('pv',), opt=dict(niw_cond=0), build=False)
case('g', (1001, 1, 1), [], dict(niw_core=0, niv_core=1), 3, ('f',), opt=dict(niw_cond=0), build=False)
case('h', (1, 1, 1), [], dict(niw_core=1001, niv_core=1), 1, ('fq',), opt=dict(niw_cond=0), build=False)
if THOROUGH:
    for j in range(12):
        nk = [(2, 2, 1), (3, 2, 1), (4, 4, 1), (1, 3, 2), (5, 1, 1)][R.randint(5)]
        sym = SQ if nk[0] == nk[1] and R.randint(2) else []
        nv = R.randint(1, 6)
        box = dict(niw_core=int(R.randint(1, 7)), niv_core=int(nv))
        case(f't{j}', nk, sym, box, R.randint(1, 5) if not sym else R.randint(1, 3), ALL, opt=dict(niw_cond=int(R.randint(0, nv)), niw_vert=int(R.randint(0, box['niw_core'] + 1))))
rec.close()
