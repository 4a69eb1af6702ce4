"""All conversion histories between two-particle quantities up to the model's depth, with the relations of Vertex.tla evaluated in fixed point (absolute tolerance 1.2e-4 on O(1) values); tail and shell variants against witness solutions that TLC verifies."""
import json


def run(ck):
    ck.model('MCVertex', 'MCVertexDeep.cfg' if ck.thorough else 'MCVertex.cfg', workers=8)
    w = ck.path('walks.json')
    json.dump(ck.behaviours('MCVertex', 'MCVertexGen.cfg'), open(w, 'w'))
    t = ck.path('t.json')
    ck.driver('d_vertex.py', t, 'C10', w)
    ck.conform('T_Vertex', t)
