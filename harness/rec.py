"""Recorder used by the drivers (runs under the repository's own Python)."""
import json, os, sys, traceback, warnings
import numpy as np
warnings.simplefilter('ignore')
BAD = 2147480000
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
THOROUGH = os.environ.get('VERIF_TIER') == 'thorough'


def fix(x, scale=1, tol=1e-6):
    """Array of reals -> integers (value*scale); anything that is not within tol of an integer, or too large, -> BAD.
    tol=None rounds (fixed-point recording; the specification then compares with a tolerance)."""
    x = np.asarray(x, dtype=float) * scale
    r = np.rint(x)
    ok = np.isfinite(x) & (np.abs(np.where(np.isfinite(r), r, 0)) < 2e9)
    if tol is not None: ok &= np.abs(np.where(np.isfinite(x), x - r, 1)) <= tol * np.maximum(1, np.abs(np.where(np.isfinite(x), x, 0)) * 1e-3)
    return np.where(ok, np.where(ok, r, 0), BAD).astype(np.int64)


def arr(a, scale=1, tol=1e-6):
    a = np.asarray(a)
    if a.dtype == object: a = a.astype(complex)
    re = fix(a.real, scale, tol).ravel().tolist()
    im = fix(a.imag, scale, tol).ravel().tolist() if np.iscomplexobj(a) else [0] * a.size
    return dict(sh=[int(s) for s in a.shape], re=re, im=im)


def ints(a):
    return [int(x) for x in np.asarray(a).ravel()]


class Rec:
    def __init__(self, path):
        self.f = open(path, 'w')
        self.n = 0

    def emit(self, **case):
        case.setdefault('exc', '')
        case.setdefault('key', case.get('op', '?'))
        self.f.write(json.dumps(case) + '\n')
        self.f.flush()
        self.n += 1

    def run(self, op, fn, key=None, **params):
        """Call fn() on the real code; fn returns a dict of recorded results. An exception of the code is part of the record."""
        case = dict(op=op, **params)
        case['key'] = key or op
        try:
            r = fn()
            case['exc'] = ''
            case.update(r)
        except Exception as e:     # noqa
            case['exc'] = type(e).__name__ + ': ' + str(e)[:200].replace('"', "'").replace('\\', '/')
            if os.environ.get('VERIF_DEBUG'): traceback.print_exc()
        self.emit(**case)
        return case

    def close(self):
        self.f.close()


def empty(): return dict(sh=[0], re=[], im=[])


def farr(a, S=4000):
    """fixed point with scale S for spec/Fix.tla: entries outside +-46340/S are recorded as BAD"""
    d = arr(np.asarray(a, dtype=complex), S, None)
    for k in ('re', 'im'): d[k] = [x if abs(x) <= 46340 else BAD for x in d[k]]
    return d


def fx(x, S=4000): return int(np.rint(float(x) * S))


def warr(a):
    """fixed point with 20 binary digits for spec/Wide.tla: entries outside +-16 are recorded as BAD"""
    d = arr(np.asarray(a, dtype=complex), 1048576, None)
    for k in ('re', 'im'): d[k] = [x if abs(x) < 16777216 else BAD for x in d[k]]
    return d


def wx(x): return int(np.rint(float(x) * 1048576))
