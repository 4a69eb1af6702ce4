"""Candidate spectra with every table of entropies and misfits and every set of failing optimisations are model checked (the record of weights stays aligned with the results, a smaller weight never fits worse); on the code every kernel entry, the stationarity of the spectrum, the reported misfit, entropy, norm and back-transform, the chosen weight and the Kramers-Kronig transform are evaluated in fixed-point arithmetic for all kernels, error models and searches."""


def run(ck):
    ck.model('MCMaxent', 'MCMaxentDeep.cfg' if ck.thorough else 'MCMaxent.cfg', workers=4)
    ck.refuted('MCMaxent', 'MCMaxentLost.cfg', 'Aligned')
    t = ck.path('t.json')
    ck.driver('d_maxent.py', t, ck.path('scratch'))
    ck.conform('T_Maxent', t)
