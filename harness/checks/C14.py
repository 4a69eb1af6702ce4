"""The shifted power iteration is model checked over kernels diagonal in harmonics and frequency parity, and its behaviours are replayed into the solver (gap equation evaluated exactly on integer vertices); general kernels are judged by the residual of the gap equation and by Rayleigh quotients of witness vectors in fixed point. Vertices are inversion symmetric, as every supported Hamiltonian makes them."""
import json


def run(ck):
    ck.model('MCEliash', 'MCEliashDeep.cfg' if ck.thorough else 'MCEliash.cfg', workers=8)
    b = ck.path('b.json')
    bs = ck.behaviours('MCEliash', 'MCEliashGen.cfg')
    if ck.thorough: bs += ck.behaviours('MCEliash', 'MCEliashGenDeep.cfg')
    json.dump(bs, open(b, 'w'))
    t = ck.path('t.json')
    ck.driver('d_eliash.py', t, b)
    ck.conform('T_Eliash', t)
