"""Reduction of the sampled components as a machine (any order, up to three bands with every orbital symmetry), model checked: averages, SU(2)-symmetric input reproduced, flat index bijective; sample files are run through the real symmetrization and every stored entry is compared."""


def run(ck):
    ck.model('MCWorm', 'MCWormDeep.cfg' if ck.thorough else 'MCWorm.cfg', workers=4)
    t = ck.path('t.json')
    ck.driver('d_worm.py', t, ck.path('files'))
    ck.conform('T_Worm', t)
