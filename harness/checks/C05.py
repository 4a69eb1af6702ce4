"""Reduction of every small mesh by every symmetry set is model checked (sound, representative in its class, complete for the named sets); the real grids of all meshes and symmetry lists of the driver are compared orbit by orbit, with multiplicities, mapping back and forth and symmetrisation."""
def run(ck):
    ck.model('MCBrillouin', workers=8)
    t = ck.path('t.json')
    ck.driver('d_brillouin.py', t, 'C05')
    ck.conform('T_Brillouin', t)
