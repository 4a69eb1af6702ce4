#!/usr/bin/env python3
"""setup_cmd: nothing to build (TLC and Python are pre-installed); parse every specification and fail if one is broken."""
import glob, os, shutil, subprocess, sys, tempfile
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
for x in ('java', '/opt/venv/bin/python', 'mpirun'):
    if not shutil.which(x): sys.exit(f'{x} missing')
jars = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
mods = sorted(os.path.basename(m) for m in glob.glob(os.path.join(V, 'spec', '*.tla')))
tmp = tempfile.mkdtemp()
procs = [(m, subprocess.Popen(['java', f'-Djava.io.tmpdir={tmp}', '-cp', jars, 'tla2sany.SANY', m], cwd=os.path.join(V, 'spec'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)) for m in mods]
bad = 0
for m, p in procs:
    o, _ = p.communicate()
    if p.returncode != 0 or 'Errors:' in o or 'Parse Error' in o:
        print(o[-1500:]); bad = 1
shutil.rmtree(tmp, ignore_errors=True)
print(len(mods), 'specifications parsed')
sys.exit(bad)
