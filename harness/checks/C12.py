"""Accumulation over any split and order of momenta is model checked; the equations of Sde.tla are evaluated exactly on integer inputs (every mesh, momentum list, frequency list, core and shell in the driver); the local limit is checked through the routines of the main program in fixed point."""


def run(ck):
    ck.model('MCSde', 'MCSdeDeep.cfg' if ck.thorough else 'MCSde.cfg', workers=8)
    ck.model('MCSde', 'MCSdeLocal.cfg', workers=8)
    t = ck.path('t.json')
    ck.driver('d_sde.py', t)
    ck.conform('T_Sde', t)
