"""Histories of window operations are model checked; they run on the real functions, as does every operation over all window sizes and axes, with each value carrying its frequency."""
import json


def run(ck):
    ck.model('MatsubaraMachine', workers=8)
    beh = ck.behaviours('MatsubaraMachine', 'MatsubaraMachineGen.cfg')
    hs = [dict(nw=3, nv=4, hist=b) for b in beh]
    hf = ck.path('hist.json')
    json.dump(hs, open(hf, 'w'))
    t = ck.path('t.json')
    ck.driver('d_matsubara.py', t, 'C07', hf)
    ck.conform('T_Matsubara', t)
