"""All frequency shifts between the notations are model checked to be bijective relabelings with the stated window; every converter of the code is compared entry by entry over all boxes and bosonic frequencies of the driver."""
def run(ck):
    ck.model('MC_Notation', workers=8)
    t = ck.path('t.json')
    ck.driver('d_matsubara.py', t, 'C08')
    ck.conform('T_Matsubara', t)
