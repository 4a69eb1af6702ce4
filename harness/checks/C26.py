"""Inverse differences over a finite field (every value vector, point order and coefficient number in bounds: the fraction interpolates and is the rational function the data came from) and the choice of the averaged continuations (every table in bounds, never empty) are model checked; on the code the fraction, the four solvers, mirrored points, selection and average are evaluated against exact rational functions in fixed-point arithmetic."""


def run(ck):
    ck.model('MCPade', 'MCPadeDeep.cfg' if ck.thorough else 'MCPade.cfg', workers=4)
    ck.model('MCPadeSel', 'MCPadeSelDeep.cfg' if ck.thorough else 'MCPadeSel.cfg', workers=4)
    ck.refuted('MCPadeSel', 'MCPadeSelEmpty.cfg', 'NonEmpty')
    t = ck.path('t.json')
    ck.driver('d_pade.py', t)
    ck.conform('T_Pade', t)
