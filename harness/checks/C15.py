"""Hamiltonians built hopping by hopping on exact meshes are model checked (Hermitian, Bloch sum, back transform); model walks, random tables (several orbitals, degeneracies, non-cubic meshes), built-in lattice models and dispersions of the code are compared entry by entry with the specification's Bloch sum and derivative."""
import json


def run(ck):
    ck.model('MCBloch', 'MCBlochDeep.cfg' if ck.thorough else 'MCBloch.cfg', workers=8)
    w = ck.path('walks.json')
    json.dump(ck.behaviours('MCBloch', 'MCBlochGen.cfg'), open(w, 'w'))
    t = ck.path('t.json')
    ck.driver('d_bloch.py', t, 'C15', w)
    ck.conform('T_Bloch', t)
