"""Drives the loggers of several ranks (one file, one fake clock) through call sequences; records the file they leave (C28).
Usage: d_log.py OUT BEHAVIOURS SCRATCH.  Arguments that are not ASCII, contain separators, or are empty are used as messages."""
import contextlib, io, json, os, re, sys, time
import numpy as np
from rec import Rec, SEED, THOROUGH

NOW = [0]                                   # quarter seconds
BASE = 1.7e9
for name in ('time', 'monotonic', 'perf_counter'): setattr(time, name, lambda: BASE + NOW[0] / 4)
for name in ('time_ns', 'monotonic_ns', 'perf_counter_ns'): setattr(time, name, lambda: int(BASE * 10 ** 9) + NOW[0] * 250000000)
from dga import loggers

out, beh, scratch = sys.argv[1:4]
os.makedirs(scratch, exist_ok=True)
rec = Rec(out)
rng = np.random.default_rng(SEED)


class Comm:
    def __init__(self, rank, size): self.rank, self.size = rank, size
    def Get_rank(self): return self.rank
    def Get_size(self): return self.size
    def barrier(self): pass
    Barrier = barrier


TD = re.compile(r'^(?:(\d+) days?, )?(\d+):(\d\d):(\d\d)$')


def secs(s):
    m = TD.match(s.strip())
    return -1 if not m else ((int(m.group(1) or 0) * 24 + int(m.group(2))) * 60 + int(m.group(3))) * 60 + int(m.group(4))


TEXT = ['event {}', ' Lambda-correction  {}', 'step : {} : done', 'χ and Σ {}', '{}', 'mem of rank 0: {} GB', 'at 0:00:01 : {}']


def text(i): return TEXT[i % len(TEXT)].format(i)


def ident(msg, ids):
    for i in ids:
        if msg == text(i): return i
    return -1


def parse(path, ids):
    if not os.path.exists(path): return []
    with open(path, encoding='utf-8') as f: lines = f.read().split('\n')
    tail = lines.pop()
    res = []
    for n, l in enumerate(lines):
        if n == 0 and not re.match(r'^\d\d:', l):
            res.append(dict(kind='head', loc=True, tot=-1, task=-1, id=0, nano=0)); continue
        p = l.split(' : ', 3)
        d = dict(kind='?', loc=bool(re.match(r'^\d\d:\d\d:\d\d$', p[0].strip())), tot=-1, task=-1, id=-1, nano=0)
        if len(p) == 4 and secs(p[1]) >= 0 and secs(p[2]) >= 0: d.update(kind='event', tot=secs(p[1]), task=secs(p[2]), id=ident(p[3], ids))
        elif len(p) >= 2:
            rest = l.split(' : ', 1)[1]
            m = re.match(r'^obj(\d+) uses \(GB\): (\d+\.\d{6})$', rest)
            if m: d.update(kind='mem', id=int(m.group(1)), nano=int(np.rint(float(m.group(2)) * 1e6)))
            else: d.update(kind='msg', id=ident(rest, ids))
        res.append(d)
    if tail: res.append(dict(kind='torn', loc=False, tot=-1, task=-1, id=-1, nano=0))
    return res


OBJ = [(np.zeros((3, 5), dtype=complex), 1), (np.zeros(1000, dtype=np.float32), 7), (np.zeros((64, 32, 2), dtype=complex), 4), (np.zeros(0), 3), (np.zeros((20, 30)), 1500)]
N = [0]


def play(nr, acts):
    """acts: [{a, r, x}]"""
    N[0] += 1
    path = os.path.join(scratch, f'dga_{N[0]}.log')
    NOW[0] = 0
    lg = {}
    sizes = []
    for x in acts:
        if x['a'] == 'tick': NOW[0] += x['x']
        elif x['a'] == 'new': lg[x['r']] = loggers.MpiLogger(logfile=path, comm=Comm(x['r'], nr), output_path=scratch + '/')
        elif x['a'] == 'event': (lg[x['r']].log_event if x['x'] % 2 else lg[x['r']].log_cpu_time)(text(x['x']))
        elif x['a'] == 'msg': lg[x['r']].log_message(text(x['x']))
        elif x['a'] == 'mem':
            o, n = OBJ[x['x'] % len(OBJ)]
            if n == 1: lg[x['r']].log_memory_usage(f"obj{x['x']}", o)
            else: lg[x['r']].log_memory_usage(f"obj{x['x']}", o, n_exists=n)
            sizes.append(dict(id=x['x'], bytes=int(o.nbytes) * n))
    r = dict(lines=parse(path, [x['x'] for x in acts if x['a'] in ('event', 'msg')]), sizes=sizes, others=sorted(f for f in os.listdir(scratch) if f != os.path.basename(path)))
    for f in os.listdir(scratch): os.remove(os.path.join(scratch, f))
    return r


def case(nr, acts, key): rec.run('log', lambda: play(nr, acts), key=key, nr=nr, acts=acts)


for i, b in enumerate(json.load(open(beh))): case(2, b, f'log:b{i}')
for i in range(400 if THOROUGH else 120):
    nr = int(rng.integers(1, 6))
    acts, known = [], []
    for j in range(int(rng.integers(5, 40))):
        k = rng.choice(['tick', 'new', 'event', 'msg', 'mem'], p=[.35, .1, .3, .15, .1])
        if k == 'tick': acts.append(dict(a='tick', r=0, x=int(rng.choice([1, 2, 3, 5, 9, 241, 14401, 345601, 1000003]))))
        elif k == 'new' or not known:
            r = 0 if not known and rng.integers(2) else int(rng.integers(nr))
            known.append(r); acts.append(dict(a='new', r=r, x=0))
        else: acts.append(dict(a=str(k), r=int(rng.choice(known)), x=j + 1))
    case(nr, acts, f'log:r{i}')

# the stop watch alone
KINDS = ['print', 'string', 'task', 'file', 'other']
PAT = re.compile(r'^(.*) took ([0-9.e+-]+) seconds$')


def watch(acts):
    """acts: [{k: tick/print/string/task/file/other/total, x}]"""
    path = os.path.join(scratch, 'cpu_time.txt')
    with open(path, 'w', encoding='utf-8') as f: f.write('earlier\n')
    NOW[0] = 0
    w = loggers.RealTime()
    w.create_file(path)
    o = []
    def took(kind, s, want):
        m = PAT.match(s)
        o.append(dict(kind=kind, t=int(np.rint(float(m.group(2)) * 4)) if m else -1, name=bool(m) and m.group(1) == want))
    names = []
    for x in acts:
        n = text(x['x']) if x['x'] % 4 else ''          # the name may be empty
        if x['k'] == 'tick': NOW[0] += x['x']
        elif x['k'] == 'print':
            b = io.StringIO()
            with contextlib.redirect_stdout(b): w.print_time(n)
            took('print', b.getvalue().rstrip('\n'), n)
        elif x['k'] == 'string': took('string', w.string_time(n), n)
        elif x['k'] == 'task': o.append(dict(kind='task', t=secs(w.task_time()), name=True))
        elif x['k'] == 'total': o.append(dict(kind='total', t=secs(w.tot_time()), name=True))
        elif x['k'] == 'file':
            w.write_time_to_file(n) if x['x'] % 2 else w.write_time_to_file(string=n, rank=0)
            took('file', open(path, encoding='utf-8').read().split('\n')[-2], n)
            names.append(n)
        elif x['k'] == 'other': w.write_time_to_file(n, rank=1 + x['x'] % 3)
    with open(path, encoding='utf-8') as f: ls = f.read().split('\n')
    os.remove(path)
    return dict(outs=o, file=ls[0] == 'earlier' and ls[-1] == '' and [l.split(' took ')[0] for l in ls[1:-1]] == names)


for i in range(200 if THOROUGH else 60):
    acts = []
    for j in range(int(rng.integers(3, 25))):
        k = str(rng.choice(['tick', 'tick', 'print', 'string', 'task', 'file', 'other', 'total']))
        acts.append(dict(k=k, x=int(rng.choice([1, 2, 3, 7, 400, 14403, 345607])) if k == 'tick' else j + 1))
    rec.run('watch', lambda: watch(acts), key=f'watch:{i}', acts=acts)
rec.close()
