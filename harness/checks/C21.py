"""Scatter, per-rank continuation with one stateful controller, failures on any subset of points and gather as a machine, model checked; its behaviours run on real communicators with a recording solver and with the real one, whole runs of the continuation program are compared momentum by momentum; meshes, kernels and extrapolation exactly on integer data."""
import json, os


def run(ck):
    ck.model('MCCont', 'MCContDeep.cfg' if ck.thorough else 'MCCont.cfg', workers=8)
    b = ck.path('b.json')
    json.dump(ck.behaviours('MCCont', 'MCContGen.cfg'), open(b, 'w'))
    t = ck.path('fn.json')
    ck.driver('d_contfn.py', t, ck.path('files'))
    with open(t, 'a') as f:
        for p in (1, 2, 3, 4):
            o = ck.path(f'p{p}.json')
            d = ck.path(f'run{p}'); os.makedirs(d, exist_ok=True)
            rc, out = ck.driver('d_cont.py', o, b, d, mpi=p, timeout=200, allow_fail=True)
            if not os.path.exists(o):
                from lib import Machinery
                raise Machinery('continuation driver did not start: ' + out[-800:])
            f.write(''.join(l for l in open(o) if l.endswith('}\n')))
            if os.path.exists(o + '.at'):
                c = json.load(open(o + '.at'))
                exc = open(o + '.exc').read() if os.path.exists(o + '.exc') else 'a rank never completed this call' if rc == 'timeout' else f'run on {p} ranks ended with {rc}'
                f.write(json.dumps(dict(c, exc=exc)) + '\n')
    ck.conform('T_Cont', t)
