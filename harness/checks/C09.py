"""Every bubble entry of integer-valued Green's functions is compared exactly with -beta <G G> at the shifted frequencies (all notations, partial and full bosonic lists, lattice and local); the tail is compared in fixed point at beta = pi."""
def run(ck):
    ck.model('MCBubble', workers=8)
    t = ck.path('t.json')
    ck.driver('d_bubble.py', t)
    ck.conform('T_Bubble', t)
