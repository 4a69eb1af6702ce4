import json, os


def run_mpi(ck, progs, ranks):
    """Run the programs under mpirun for each rank count; merge the per-rank records into cases."""
    d = ck.path('mpi'); os.makedirs(d, exist_ok=True)
    pf = ck.path('progs.json')
    json.dump(progs, open(pf, 'w'))
    out = ck.path('mpi_cases.json')
    hung = 0
    with open(out, 'w') as f:
        for p in ranks:
            if hung > 1: break      # two deadlocks are enough of a verdict
            rc, o = ck.driver('d_mpi.py', d, pf, mpi=p, timeout=90, allow_fail=True)
            hung += rc == 'timeout'
            per = []
            for r in range(p):
                fn = os.path.join(d, f'p{p}_r{r}.json')
                L = []
                if os.path.exists(fn):
                    for line in open(fn):
                        try: L.append(json.loads(line))
                        except ValueError: pass
                per.append(L)
            if not any(per) and rc not in ('timeout',) and 'Traceback' in o and 'ImportError' in o:
                from lib import Machinery
                raise Machinery('mpi driver did not start: ' + o[-500:])
            i = 0
            stop = False
            for pr in progs:
                for s in ([None] if pr['op'] == 'partition' else range(len(pr['prog']))):
                    have = [L[i] for L in per if len(L) > i]
                    i += 1
                    if stop: continue
                    exc = ''
                    if len(have) < p:
                        exc = 'deadlock or crash: a rank never completed this call' if rc != 0 else 'rank record missing'
                        stop = True
                    exc = exc or next((h['exc'] for h in have if h['exc']), '')
                    if pr['op'] == 'partition':
                        c = dict(op='partition', n=pr['n'], p=p, ranks=have, exc=exc, key=f'partition n={pr["n"]} p={p}')
                    else:
                        op = pr['prog'][s]
                        c = dict(op='collective', kind=op['kind'], root=op['root'] % p, n=pr['n'], p=p, ranks=have, exc=exc,
                                 sizes=have[0]['sizes'] if have and 'sizes' in have[0] else [], dtype=pr['dtype'], rest=pr['rest'],
                                 key=f'{op["kind"]} n={pr["n"]} p={p} root={op["root"] % p} {pr["dtype"]} {pr["rest"]}')
                    f.write(json.dumps(c) + '\n')
            if rc != 0 and not stop:
                f.write(json.dumps(dict(op='partition', n=0, p=p, ranks=[], exc=f'run on {p} ranks ended with {rc}', key=f'exit p={p}')) + '\n')
    return out
