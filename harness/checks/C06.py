"""Histories of grid operations are model checked; they and every mesh operation, path and slice of the code are compared entry by entry with the point arithmetic of the specification."""
import json


def run(ck):
    ck.model('MCMomentum', workers=8)
    beh = ck.behaviours('MCMomentum', 'MCMomentumGen.cfg')
    h = ck.path('h.json')
    json.dump(beh, open(h, 'w'))
    t = ck.path('t.json')
    ck.driver('d_brillouin.py', t, 'C06', h)
    ck.conform('T_Brillouin', t)
