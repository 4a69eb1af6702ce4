"""The search (Newton from the pole, restart at half the distance) is model checked for convergence without crossing the pole; on the code, problems with a prescribed physical solution (exact rational data, poles at any distance, negative static susceptibilities, complex frequencies) must return that solution, 10^-6 in lambda."""


def run(ck):
    ck.model('MCLambda', 'MCLambda.cfg', workers=4)
    t = ck.path('t.json')
    ck.driver('d_lambda.py', t)
    ck.conform('T_Lambda', t)
