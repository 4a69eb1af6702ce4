"""The protocol of a run (folders, rank files, collectives) is model checked over every interleaving, and the happens-before relation used on recordings is shown exact against all interleavings of short programs. The real main program then runs whole on 1 to 9 ranks for several inputs and switches; every rank's collectives and file accesses are recorded and judged in every schedule consistent with MPI, and all files are compared with those of the run on one rank. The values are those of the sampled inputs; the order rules do not depend on timing."""


def run(ck):
    ck.model('MCHb', 'MCHbDeep.cfg' if ck.thorough else 'MCHb.cfg', workers=1)
    ck.model('MCDgaRun', 'MCDgaRunDeep.cfg' if ck.thorough else 'MCDgaRun.cfg', workers=8, timeout=800)
    ck.refuted('MCDgaRun', 'MCDgaRunDropFiles.cfg', 'ReadComplete')
    ck.refuted('MCDgaRun', 'MCDgaRunDropFolder.cfg', 'FolderFirst')
    t = ck.path('t.json')
    ck.driver('d_run.py', t, ck.path('runs'), 'c04', timeout=850)
    ck.conform('T_Run', t)
