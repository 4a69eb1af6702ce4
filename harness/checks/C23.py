"""Accumulation of the vertex part over any split of the momenta (also empty shares) and the mirror symmetry of the bubble are model checked; bubbles, vertex parts, frequency slices, the real-frequency bubble and the conductivity are evaluated exactly on integer data for every mesh, notation, derivative and split in the driver, and on real communicators; the optics vertex written by the ranks is assembled by the real code and compared entry by entry."""
import json, os


def run(ck):
    ck.model('MCOptics', 'MCOpticsDeep.cfg' if ck.thorough else 'MCOptics.cfg', workers=8)
    t = ck.path('t.json')
    ck.driver('d_optics.py', t, 'serial')
    with open(t, 'a') as f:
        for p in (1, 2, 3, 4):
            o = ck.path(f'p{p}.json')
            rc, out = ck.driver('d_optics.py', o, 'mpi', mpi=p, timeout=120, allow_fail=True)
            if not os.path.exists(o):
                from lib import Machinery
                raise Machinery('optics driver did not start: ' + out[-800:])
            f.write(''.join(l for l in open(o) if l.endswith('}\n')))
            if os.path.exists(o + '.at'):
                c = json.load(open(o + '.at'))
                exc = open(o + '.exc').read() if os.path.exists(o + '.exc') else 'a rank never completed this call' if rc == 'timeout' else f'run on {p} ranks ended with {rc}'
                f.write(json.dumps(dict(c, exc=exc)) + '\n')
    ck.conform('T_Optics', t)
    v = ck.path('v.json')
    ck.driver('d_rankfiles.py', v, ck.path('files'))
    keep = [l for l in open(v) if json.loads(l)['op'] in ('write', 'f', 'bf')]
    open(v, 'w').write(''.join(keep))
    ck.conform('T_RankFiles', v)
