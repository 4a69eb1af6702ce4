"""The assembly of windows from stored half, tail and wrapped DMFT shell is model checked over all window sizes; on the code every window, tail, local or momentum-dependent self-energy (exact integers, inverse temperature pi/b), the Dyson equation G (iv + mu - e - Sigma) = 1 at every entry, momentum means, fillings, energies and real-frequency objects are checked against the specification."""


def run(ck):
    ck.model('MCDyson', 'MCDyson.cfg', workers=4)
    t = ck.path('t.json')
    ck.driver('d_dyson.py', t)
    ck.conform('T_Dyson', t)
