"""Log of a run as a machine over the ranks' loggers, model checked (one line per call of the root, in order, task times partition the total; defective variants refuted); every call sequence of the model and long random ones drive real loggers on a fake clock and the files they leave are compared with the specification."""
import json


def run(ck):
    ck.model('MCLog', 'MCLogDeep.cfg' if ck.thorough else 'MCLog.cfg', workers=8)
    for cfg, inv in (('MCLogAllWrite.cfg', 'Faithful'), ('MCLogReset.cfg', 'Times'), ('MCLogLost.cfg', 'Faithful')): ck.refuted('MCLog', cfg, inv)
    b = ck.path('b.json')
    json.dump(ck.behaviours('MCLog', 'MCLogGen.cfg'), open(b, 'w'))
    t = ck.path('t.json')
    ck.driver('d_log.py', t, b, ck.path('files'))
    ck.conform('T_Log', t)
