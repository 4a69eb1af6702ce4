#!/usr/bin/env python3
"""Development tool for planted bugs (no check uses it).
   seed.py make FILE       create/refresh the seeds defined by the Python list SEEDS in FILE
   seed.py run [ids..]     verify seeds: applies, builds, stable tests pass, demo 0/nonzero; which check(s) catch it
SEEDS entries: dict(id, prop, file, edits=[(old, new), ...] or files={file: edits}, needs, breaks, demo=python text | demo_sh=...)"""
import concurrent.futures as cf, json, os, re, runpy, shutil, subprocess, sys, tempfile
V = '/verif'
SH = '''#!/bin/bash
# cwd is the repository; exit 0 iff the behaviour is right
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH="$PWD/src" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 OMPI_MCA_btl=self,vader OMPI_MCA_pml=ob1
export OMPI_MCA_btl_vader_single_copy_mechanism=none OMPI_MCA_rmaps_base_oversubscribe=1 OMPI_MCA_plm=isolated OMPI_MCA_hwloc_base_binding_policy=none
export HOME=/root PYTHONWARNINGS=ignore
'''


def sh(cmd, cwd=None, env=None, timeout=900):
    try:
        p = subprocess.run(cmd, shell=isinstance(cmd, str), cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, timeout=timeout)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as e:
        return 124, str(e.stdout)[-2000:]


def copy():
    d = tempfile.mkdtemp(prefix='sw_', dir='/tmp/seedwork')
    shutil.rmtree(d)
    shutil.copytree('/repo', d, symlinks=True)
    return d


def make(path):
    for s in runpy.run_path(path)['SEEDS']:
        d = copy()
        try:
            files = s.get('files') or {s['file']: s['edits']}
            for f, edits in files.items():
                p = f'{d}/src/dga/{f}' if '/' not in f else f'{d}/{f}'
                t = open(p).read()
                for old, new in edits:
                    assert t.count(old) == 1, (s['id'], f, t.count(old), old)
                    t = t.replace(old, new)
                open(p, 'w').write(t)
            out = f"{V}/seeded/{s['id']}"
            os.makedirs(out, exist_ok=True)
            rc, diff = sh(['git', 'diff'], cwd=d)
            open(f'{out}/patch.diff', 'w').write(diff)
            if 'demo_sh' in s:
                open(f'{out}/demo.sh', 'w').write(SH + s['demo_sh'])
            else:
                np_ = s.get('np')
                run = f'exec timeout -k 5 90 mpirun --oversubscribe -np {np_} /opt/venv/bin/python' if np_ else 'exec /opt/venv/bin/python'
                open(f'{out}/demo.sh', 'w').write(SH + f'{run} "$here/demo.py"\n')
            if 'demo' in s:
                open(f'{out}/demo.py', 'w').write(s['demo'].lstrip('\n'))
            for f in s.get('extra', []): shutil.copy(f, out)
            os.chmod(f'{out}/demo.sh', 0o755)
            json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['breaks']), open(f'{out}/meta.json', 'w'), indent=1)
        finally:
            shutil.rmtree(d)


def stable(d):
    t = open('/opt/vp/test.sh').read().replace('cd /repo', f'cd {d}').replace('/opt/vp/reports', f'{d}.rep')
    t = t.replace('PYTHONPATH=/opt/vp/plugin', f'PYTHONPATH={d}/src:/opt/vp/plugin').replace('-n 8', '-n 4')
    open(d + '.test.sh', 'w').write(t)
    sh(['bash', d + '.test.sh', d + '.json'])
    got = set(json.load(open(d + '.json'))['passed'])
    os.remove(d + '.test.sh'); os.remove(d + '.json'); shutil.rmtree(d + '.rep')
    return sorted(set(json.load(open('/opt/vp/BASELINE.json'))['stable']) - got)


def one(sid, checks=None):
    sd = f'{V}/seeded/{sid}'
    meta = json.load(open(f'{sd}/meta.json'))
    d = copy()
    demo = tempfile.mkdtemp(prefix='demo_', dir='/tmp/seedwork')
    try:
        for f in os.listdir(sd):
            if not f.endswith(('.diff', '.patch')) and f != 'meta.json':
                shutil.copy(f'{sd}/{f}', demo)
        rc0, o0 = sh(['bash', f'{demo}/demo.sh'], cwd=d, timeout=300)
        rc, o = sh(['git', 'apply', f'{sd}/patch.diff'], cwd=d)
        if rc:
            return sid, 'PATCH DOES NOT APPLY ' + o
        b = open('/opt/vp/build.sh').read().replace('cd /repo', f'cd {d}').replace('export PYTHONDONT', f'export PYTHONPATH={d}/src PYTHONDONT')
        rcb, ob = sh(['bash', '-c', b])
        miss = stable(d)
        rc1, o1 = sh(['bash', f'{demo}/demo.sh'], cwd=d, timeout=300)
        res = []
        for c in checks or [meta['property']]:
            env = dict(os.environ, DGAPY_REPO=d, VERIF_TIER='quick', VERIF_SEED='1', VERIF_EVIDENCE=demo)
            rcc, oc = sh(['python3', 'harness/check.py', c], cwd=V, env=env)
            v = [l for l in oc.splitlines() if l.startswith('VIOLATION')]
            res.append(f"{c}:{'CAUGHT' if rcc == 1 and v else 'MISSED' if rcc == 0 else 'ERROR' + str(rcc) + oc[-600:]} {(v or [''])[0][:110]}")
        ok = rc0 == 0 and rc1 != 0 and not miss and rcb == 0
        return sid, f"{'valid' if ok else 'INVALID demo0=%s demo1=%s miss=%s build=%s %s' % (rc0, rc1, miss, rcb, (o0 if rc0 else o1)[-500:])} | " + ' '.join(res)
    except Exception as e:
        return sid, f'EXC {e!r}'
    finally:
        shutil.rmtree(d, ignore_errors=True); shutil.rmtree(demo, ignore_errors=True)


if __name__ == '__main__':
    if sys.argv[1] == 'make':
        make(sys.argv[2])
    else:
        ids = sys.argv[2:] or sorted(os.listdir(f'{V}/seeded'))
        with cf.ThreadPoolExecutor(3) as ex:
            for sid, msg in ex.map(one, ids):
                print(sid, '|', msg, flush=True)
