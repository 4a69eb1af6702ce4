"""The scan for the Fermi surface, the scan of a path for its crossings and the descent to the chemical potential are model checked; on the code the contour points, quadrant masks, crossings, Green's functions, fillings and chemical potentials, and the files of the program swk_analysis, are evaluated exactly or in fixed-point arithmetic."""


def run(ck):
    ck.model('MCRealf', 'MCRealfDeep.cfg' if ck.thorough else 'MCRealf.cfg', workers=4)
    ck.refuted('MCRealf', 'MCRealfLost.cfg', 'EachNearest')
    t = ck.path('t.json')
    ck.driver('d_realf.py', t, ck.path('scratch'))
    ck.conform('T_Realf', t)
