#!/usr/bin/env python3
"""Development tool (no check uses it): small mutations of the sources, run against the checks.
   mutate.py gen FILE.py [funcregex]      list the mutants
   mutate.py run FILE.py CHECKS [funcregex] [--stride n] [--jobs j] [--out F]
CHECKS: comma separated, tried in order until one reports a violation."""
import warnings; warnings.simplefilter('ignore')
import ast, concurrent.futures as cf, json, os, re, shutil, subprocess, sys, tempfile
SRC = '/repo/src/dga/'
SWAP = {'niw': 'niv', 'niv': 'niw', 'dens': 'magn', 'magn': 'dens', 'kx': 'ky', 'ky': 'kx', 'real': 'imag', 'imag': 'real', 'min': 'max', 'max': 'min', 'floor': 'ceil', 'zeros': 'ones',
        'niv_core': 'niv_full', 'niv_full': 'niv_core', 'argmax': 'argmin', 'argmin': 'argmax', 'sin': 'cos', 'cos': 'sin'}
SKIPF = re.compile(r'plot|log_|^show|print')


def mutants(path, rx=None):
    src = open(path).read()
    tree = ast.parse(src)
    lines = src.split('\n')
    off = [0]
    for l in lines: off.append(off[-1] + len(l.encode()) + 1)
    b = src.encode()
    out = []

    def seg(n): return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset

    def add(n, new, fn, what):
        s, e = seg(n)
        out.append((fn, n.lineno, what, s, e, new))

    def visit(n, fn, skip):
        for c in ast.iter_child_nodes(n):
            f, sk = fn, skip
            if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                f = (fn + '.' if fn else '') + c.name
                sk = skip or bool(SKIPF.search(c.name))
                if isinstance(c, ast.FunctionDef) and c.name in ('__repr__',): sk = True
            if fn and not skip: node(c, fn)
            visit(c, f, sk)

    def u(n): return ast.unparse(n)

    def node(n, fn):
        if isinstance(n, ast.BinOp):
            alt = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.FloorDiv: '/', ast.Mod: '+', ast.Pow: '*', ast.MatMult: None}.get(type(n.op))
            if isinstance(n.left, ast.Constant) and isinstance(n.left.value, str) or isinstance(n.left, ast.JoinedStr) or isinstance(n.right, ast.Constant) and isinstance(n.right.value, str): return
            if alt: add(n, f'({u(n.left)}) {alt} ({u(n.right)})', fn, f'op {type(n.op).__name__}')
            if isinstance(n.op, ast.MatMult): add(n, f'({u(n.right)}) @ ({u(n.left)})', fn, 'matmul order')
        elif isinstance(n, ast.Compare) and len(n.ops) == 1:
            alt = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==', ast.Is: 'is not', ast.IsNot: 'is', ast.In: 'not in', ast.NotIn: 'in'}.get(type(n.ops[0]))
            if alt: add(n, f'{u(n.left)} {alt} {u(n.comparators[0])}', fn, f'cmp {alt}')
        elif isinstance(n, ast.Constant) and type(n.value) is int:
            add(n, f'({n.value + 1})', fn, f'{n.value}->{n.value + 1}')
            if n.value > 0: add(n, f'({n.value - 1})', fn, f'{n.value}->{n.value - 1}')
        elif isinstance(n, ast.Constant) and type(n.value) is float:
            add(n, f'({n.value * 2 + (n.value == 0)})', fn, f'{n.value}x2')
        elif isinstance(n, ast.Constant) and type(n.value) is bool:
            add(n, str(not n.value), fn, 'bool')
        elif isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value in SWAP:
            add(n, repr(SWAP[n.value]), fn, f'str {n.value}')
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
            add(n, f'({u(n.operand)})', fn, 'drop ' + type(n.op).__name__)
        elif isinstance(n, ast.BoolOp):
            o = ' or ' if isinstance(n.op, ast.And) else ' and '
            add(n, '(' + o.join(f'({u(v)})' for v in n.values) + ')', fn, 'bool op')
        elif isinstance(n, ast.Call):
            name = u(n.func)
            if name in ('np.conj', 'np.real', 'np.abs', 'np.transpose', 'np.flip', 'np.squeeze') and n.args: add(n, f'({u(n.args[0])})', fn, 'drop ' + name)
            elif len(n.args) == 2 and not n.keywords and not name.startswith(('np.array', 'print', 'isinstance')): add(n, f'{name}({u(n.args[1])}, {u(n.args[0])})', fn, 'swap args')
            for k in n.keywords:
                if k.arg in ('axis', 'axes', 'n', 'niv_cut', 'shift', 'root'):
                    m = ast.Call(n.func, n.args, [x for x in n.keywords if x is not k])
                    add(n, u(m), fn, f'drop kw {k.arg}')
        elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and (n.attr in SWAP or n.attr == 'T'):
            add(n, u(n.value) if n.attr == 'T' else f'{u(n.value)}.{SWAP[n.attr]}', fn, f'attr {n.attr}')
        elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in SWAP and n.id not in ('min', 'max'):
            add(n, SWAP[n.id], fn, f'name {n.id}')
        elif isinstance(n, ast.AugAssign):
            add(n, 'pass', fn, 'drop stmt')
            alt = {ast.Add: '-=', ast.Sub: '+=', ast.Mult: '/=', ast.Div: '*='}.get(type(n.op))
            if alt: add(n, f'{u(n.target)} {alt} {u(n.value)}', fn, 'augop')
        elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and not re.search(r'log|print|plot|plt\.', u(n.value.func)):
            add(n, 'pass', fn, 'drop call')
        elif isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
            add(n, 'pass', fn, 'drop assign')
        elif isinstance(n, ast.If):
            add(n.test, f'not ({u(n.test)})', fn, 'negate if')
        elif isinstance(n, ast.IfExp):
            add(n.test, f'not ({u(n.test)})', fn, 'negate ifexp')

    visit(tree, '', False)
    res, seen = [], set()
    for fn, ln, what, s, e, new in out:
        if rx and not re.search(rx, fn): continue
        t = (b[:s] + new.encode() + b[e:]).decode()
        if t in seen or t == src: continue
        try: compile(t, 'x', 'exec')
        except SyntaxError: continue
        seen.add(t)
        res.append((fn, ln, what, lines[ln - 1].strip()[:110], new[:80], t))
    return res


def run_one(i, m, fname, checks):
    d = tempfile.mkdtemp(prefix='mut_', dir='/tmp/mut')
    try:
        shutil.copytree('/repo/src', d + '/src', ignore=shutil.ignore_patterns('__pycache__'))
        for x in ('tests', 'examples'):
            if os.path.exists('/repo/' + x) and not os.path.exists(d + '/' + x): os.symlink('/repo/' + x, d + '/' + x)
        open(f'{d}/src/dga/{fname}', 'w').write(m[5])
        verdict, by = 'survived', ''
        for c in checks:
            e = dict(os.environ, DGAPY_REPO=d, VERIF_NO_MODEL='1', TMPDIR=d)
            try:
                p = subprocess.run(['python3', '/tmp/mut/verif/harness/check.py', c], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
                rc, o = p.returncode, p.stdout
            except subprocess.TimeoutExpired: rc, o = 124, 'timeout'
            if rc == 1 and 'VIOLATION' in o: verdict, by = 'caught', c; break
            if rc != 0: verdict, by = f'rc{rc}', c + ' ' + o[-300:]
        return dict(i=i, file=fname, fn=m[0], line=m[1], what=m[2], src=m[3], new=m[4], verdict=verdict, by=by)
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == '__main__':
    a = [x for x in sys.argv[1:] if not x.startswith('--')]
    o = dict(x[2:].split('=') for x in sys.argv[1:] if x.startswith('--'))
    fname = a[1]
    ms = mutants(SRC + fname, a[2] if a[0] == 'gen' and len(a) > 2 else a[3] if len(a) > 3 else None)
    if a[0] == 'gen':
        for m in ms: print(*m[:5], sep=' | ')
        print(len(ms))
    else:
        os.makedirs('/tmp/mut', exist_ok=True)
        ms = ms[int(o.get('start', 0))::int(o.get('stride', 1))]
        out = open(o.get('out', '/tmp/mut/results.jsonl'), 'a')
        n = 0
        with cf.ThreadPoolExecutor(int(o.get('jobs', 4))) as ex:
            for r in cf.as_completed([ex.submit(run_one, i, m, fname, a[2].split(',')) for i, m in enumerate(ms)]):
                r = r.result(); n += r['verdict'] == 'caught'
                out.write(json.dumps(r) + '\n'); out.flush()
        print(fname, len(ms), 'mutants', n, 'caught')
