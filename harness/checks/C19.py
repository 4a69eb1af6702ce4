"""Load, cut, symmetrize, store, load again as a machine over all stored and requested boxes, model checked entry by entry; its behaviours are run on real files of every input type and each entry of the objects is compared, as are all one-particle quantities and data sets."""
import json


def run(ck):
    ck.model('MCInput', 'MCInputDeep.cfg' if ck.thorough else 'MCInput.cfg', workers=4)
    b, t = ck.path('b.json'), ck.path('t.json')
    json.dump(ck.behaviours('MCInput', 'MCInputGen.cfg'), open(b, 'w'))
    ck.driver('d_input.py', t, b, ck.path('files'))
    ck.conform('T_Input', t)
