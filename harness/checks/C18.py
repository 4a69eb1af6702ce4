"""Several runs on several ranks over arbitrary earlier folders, model checked in every interleaving (fresh, never shared, smallest suffix, agreement, sub-folders ready, termination); the schedules of the model and random ones drive real DgaConfig objects through a cooperative scheduler that stops them at every collective and file-system call, and the outcome is compared with the specification."""
import json


def run(ck):
    ck.model('MCFolders', 'MCFoldersDeep.cfg' if ck.thorough else 'MCFolders.cfg', workers=8)
    b = ck.path('b.json')
    json.dump(ck.behaviours('MCFolders', 'MCFoldersGen.cfg'), open(b, 'w'))
    t = ck.path('t.json')
    ck.driver('d_folders.py', t, b, ck.path('files'))
    ck.conform('T_Folders', t)
