"""The ladder relations of Vertex.tla per momentum and frequency, in fixed point (absolute tolerance 1.2e-4 on O(1) values), on random vertices shared by several momenta (two of them with equal bubbles), with and without a shell and a tail; the relations themselves are model checked over a finite field."""


def run(ck):
    ck.model('MCVertex', 'MCVertexDeep.cfg' if ck.thorough else 'MCVertex.cfg', workers=8)
    t = ck.path('t.json')
    ck.driver('d_vertex.py', t, 'C11')
    ck.conform('T_Vertex', t)
