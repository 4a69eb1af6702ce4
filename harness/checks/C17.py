"""Resolution of frequency boxes as a staged machine, model checked for all combinations of given and defaulted entries; the same combinations (and larger random ones) go through real DgaConfig objects read from yaml files, with symmetry names/lists, lattice types, section defaults, rank counts and continuation settings compared with the specification."""
import json


def run(ck):
    ck.model('MCConfig', 'MCConfigDeep.cfg' if ck.thorough else 'MCConfig.cfg', workers=8)
    b = ck.path('b.json')
    json.dump(ck.behaviours('MCConfig', 'MCConfigGen.cfg'), open(b, 'w'))
    t = ck.path('t.json')
    ck.driver('d_config.py', t, b, ck.path('files'))
    ck.conform('T_Config', t)
