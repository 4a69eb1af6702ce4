"""Writer and reader of the hopping file as a token machine, model checked for every table size; files the code writes are compared token by token with the specified layout, and what it reads back (own and foreign files, momentum-space files with all header variants) with what was stored."""


def run(ck):
    ck.model('MCHrFile', 'MCHrFileDeep.cfg' if ck.thorough else 'MCHrFile.cfg', workers=4)
    t = ck.path('t.json')
    ck.driver('d_bloch.py', t, 'C16', ck.path('files'))
    ck.conform('T_Bloch', t)
