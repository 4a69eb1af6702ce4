"""The way the pieces of a run combine (double counting against the local limit, recovery of the irreducible vertex with a bare shell, lambda corrections) is model checked exactly over finite fields. Whole runs of the real main program on small random inputs are then judged: the equations of the specification hold between input and output files in 20-digit binary fixed point (inverses multiplied out, with witnesses that are themselves checked), and every file is compared with a plain evaluation over the whole zone. Values are those of the sampled inputs."""


def run(ck):
    ck.model('MCWide', workers=4)
    ck.model('MCLadder', 'MCLadderDeep.cfg' if ck.thorough else 'MCLadder.cfg', workers=8)
    ck.model('MCDerived', workers=4)
    ck.model('MCOutputs', workers=4)
    ck.refuted('MCOutputs', 'MCOutputsEarly.cfg', 'ReadsExist')
    t = ck.path('t.json')
    ck.driver('d_run.py', t, ck.path('runs'), 'c24', timeout=800)
    ck.conform('T_Ladder', t)
