"""The writing of slices by the ranks in any order and their assembly by name is model checked (each slice in exactly one file, every pp pair covered once); on the code the real writers are run for every rank into real rank files, all kinds in one file, and the loaders and vertex builders must return the specification's entry at every momentum and frequency (exact integers)."""


def run(ck):
    for n, p in ((3, 1), (3, 2), (3, 3), (4, 2)): ck.model('MCRankFiles', f'MCRankFiles_{n}_{p}.cfg', workers=4)
    t = ck.path('t.json')
    ck.driver('d_rankfiles.py', t, ck.path('files'))
    ck.conform('T_RankFiles', t)
