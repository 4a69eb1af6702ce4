"""Shared machinery of the checks: run TLC, run drivers against /repo, collect evidence, decide the exit code."""
import json, os, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec')
REPO = os.environ.get('DGAPY_REPO', '/repo')
PY = '/opt/venv/bin/python'
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


class Machinery(Exception):
    """The check itself could not run: exit code 2, never a verdict."""


def base_env(scratch):
    e = dict(os.environ)
    e.update(PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', MPLCONFIGDIR=os.path.join(scratch, 'mpl'),
             OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', HOME=scratch, TMPDIR=scratch,
             PYTHONPATH=os.path.join(REPO, 'src') + ':' + os.path.join(VERIF, 'harness'),
             PYTHONHASHSEED='0', LANG='C.UTF-8',
             OMPI_ALLOW_RUN_AS_ROOT='1', OMPI_ALLOW_RUN_AS_ROOT_CONFIRM='1', OMPI_MCA_btl='self,vader',
             OMPI_MCA_btl_vader_single_copy_mechanism='none', OMPI_MCA_pml='ob1',
             OMPI_MCA_rmaps_base_oversubscribe='1', OMPI_MCA_plm='isolated',
             OMPI_MCA_hwloc_base_binding_policy='none')
    return e


class Check:
    def __init__(self, prop, level='model_checking'):
        self.prop, self.level = prop, level
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'): self.tier = 'quick'
        self.seed = int(os.environ.get('VERIF_SEED', '1') or '1')
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix=f'verif_{prop}_')
        self.states = self.transitions = self.validated = 0
        self.design, self.samples, self.violations, self.known_seen = [], [], [], []
        self.cov = {}
        self.assumptions = []
        self.clauses = {}
        self.keep = None

    @property
    def thorough(self):
        return self.tier == 'thorough'

    # ------------------------------------------------------------------ TLC
    def _tlc(self, module, cfg, env=None, workers=4, extra=(), timeout=600, heap='4g'):
        meta = tempfile.mkdtemp(prefix='tlc_', dir=self.scratch)
        e = base_env(self.scratch)
        e.update(env or {})
        cmd = ['java', f'-Xmx{heap}', '-Xss16m', '-XX:+UseParallelGC', f'-Djava.io.tmpdir={meta}', '-cp', JARS, 'tlc2.TLC', '-metadir', meta,
               '-noGenerateSpecTE', '-workers', str(workers), '-config', cfg, *extra, module]
        try:
            r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise Machinery(f'TLC timed out on {module}/{cfg}')
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        return r.returncode, r.stdout

    def _stats(self, out):
        m = re.findall(r'([\d,]+) states generated.*?, ([\d,]+) distinct states found', out)
        if m:
            g, d = (int(x.replace(',', '')) for x in m[-1])
            self.transitions += g
            self.states += d
            return d, g
        return 0, 0

    def model(self, module, cfg=None, workers=4, timeout=600, extra=(), env=None):
        """Exhaustive design check of a specification; an error here is a defect of the specification itself."""
        if os.environ.get('VERIF_NO_MODEL'): return ''        # development only (mutation runs): the design does not depend on the code
        cfg = cfg or module + '.cfg'
        rc, out = self._tlc(module, cfg, workers=workers, timeout=timeout, extra=extra, env=env)
        d, g = self._stats(out)
        if rc != 0 or 'No error has been found' not in out:
            sys.stderr.write(out[-4000:])
            raise Machinery(f'design model {module}/{cfg} is not accepted by TLC (rc {rc})')
        self.design.append(dict(module=module, cfg=cfg, distinct_states=d, states_generated=g))
        return out

    def refuted(self, module, cfg, inv, workers=4, timeout=300):
        """The specification without a protective step must break the invariant: the invariant is not vacuous."""
        if os.environ.get('VERIF_NO_MODEL'): return
        rc, out = self._tlc(module, cfg, workers=workers, timeout=timeout)
        self._stats(out)
        if f'Invariant {inv} is violated' not in out:
            sys.stderr.write(out[-4000:])
            raise Machinery(f'{module}/{cfg} was expected to break {inv}')
        self.design.append(dict(module=module, cfg=cfg, breaks=inv))

    def behaviours(self, module, cfg, tag='BEH', workers=1, extra=(), timeout=300, env=None):
        """Behaviours of a specification printed by TLC as JSON (PrintT(<<tag, ToJson(..)>>))."""
        rc, out = self._tlc(module, cfg, workers=workers, extra=extra, timeout=timeout, env=env)
        self._stats(out)
        if rc != 0:
            sys.stderr.write(out[-4000:])
            raise Machinery(f'behaviour generation {module}/{cfg} failed (rc {rc})')
        res = []
        for m in re.finditer(r'<<"%s", "((?:[^"\\]|\\.)*)">>' % tag, out):
            res.append(json.loads(json.loads('"' + m.group(1) + '"')))
        if not res:
            raise Machinery(f'{module}/{cfg} printed no behaviour')
        return res

    def conform(self, module, trace, cfg='Conform.cfg', workers=8, timeout=800, what='case', heap='6g', env=None):
        """Check every recorded case of `trace` against the specification; collect the failing ones."""
        with open(trace) as f:
            lines = [l for l in f if l.strip()]
        if not lines: raise Machinery(f'empty trace for {module}')
        ee = {'TRACE': trace}
        ee.update(env or {})
        rc, out = self._tlc(module, cfg, env=ee, workers=workers, timeout=timeout, extra=('-continue',), heap=heap)
        d, _ = self._stats(out)
        bad = {}
        for j, f in re.findall(r'"BAD (\d+) (\[.*?\])"', out): bad[int(j)] = sorted(set(json.loads(json.loads('"' + f + '"'))))
        nbad = out.count('Error: Invariant Conforms is violated')
        if rc not in (0, 12) and re.search(EVAL_ERROR, out):
            # a record the specification cannot even be evaluated on (values out of range, missing entries): find it
            hit = self._unevaluable(module, lines, cfg, ee, heap)
            if hit is not None:
                sys.stderr.write(out[-3000:])
                for j in bad: self._fail(json.loads(lines[j - 1]), bad[j], module)
                self._fail(json.loads(lines[hit]), ['the recorded values are in the range of the specification'], module)
                raise Machinery('stopped at a record that cannot be evaluated')
        if rc not in (0, 12) or nbad != len(bad):
            sys.stderr.write(out[-6000:])
            raise Machinery(f'conformance run {module} failed (rc {rc}, {nbad} rejections, {len(bad)} parsed)')
        if d < len(lines) + 1:
            raise Machinery(f'conformance run {module}: only {d} states for {len(lines)} cases')
        self.validated += len(lines) - len(bad)
        for j in sorted(bad):
            c = json.loads(lines[j - 1])
            self._fail(c, bad[j], module)
        for l in lines[:1] + lines[len(lines) // 2:len(lines) // 2 + 1] + lines[-1:]:
            if len(self.samples) < 12:
                s = l.strip()
                self.samples.append(json.loads(s) if len(s) < 1500 else s[:1500] + '...')
        for l in lines:
            op = json.loads(l).get('op', '?') if len(l) < 20_000_000 else '?'
            self.clauses[op] = self.clauses.get(op, 0) + 1
        return bad

    def _unevaluable(self, module, lines, cfg, env, heap):
        """Bisect for a record on which TLC cannot evaluate the specification (None: not reproducible)."""
        def fails(sel):
            p = self.path(f'bisect_{module}.json')
            with open(p, 'w') as f: f.writelines(lines[i] for i in sel)
            rc, out = self._tlc(module, cfg, env=dict(env, TRACE=p), workers=8, timeout=300, extra=('-continue',), heap=heap)
            return rc not in (0, 12) and bool(re.search(EVAL_ERROR, out))
        sel = list(range(len(lines)))
        t0 = time.time()
        while len(sel) > 1 and time.time() - t0 < 200:
            half = sel[:len(sel) // 2]
            sel = half if fails(half) else sel[len(sel) // 2:]
        return sel[0] if len(sel) == 1 and fails(sel) else None

    # ------------------------------------------------------------------ verdicts
    def _fail(self, case, clauses, module):
        key = case.get('key', case.get('op', '?'))
        known = load_known()
        rest = []
        for cl in clauses:
            hit = [k for k in known if k['status'] == 'open' and k['property'] == self.prop and k.get('key') == key and k.get('clause') == cl]
            if hit: self.known_seen.append((hit[0], key, cl))
            else: rest.append(cl)
        if rest: self.violations.append(dict(module=module, key=key, clauses=rest, case=case))

    def violate(self, key, clauses, case, module='harness'):
        self._fail(dict(case, key=key), clauses, module)

    # ------------------------------------------------------------------ drivers
    def driver(self, script, *args, timeout=600, mpi=None, env=None, out=None, allow_fail=False):
        e = base_env(self.scratch)
        os.makedirs(e['MPLCONFIGDIR'], exist_ok=True)
        e.update(env or {})
        e['VERIF_SEED'], e['VERIF_TIER'] = str(self.seed), self.tier
        cmd = [PY, '-W', 'ignore', os.path.join(VERIF, 'harness', script), *map(str, args)]
        if mpi: cmd = ['mpirun', '-n', str(mpi)] + cmd
        p = subprocess.Popen(cmd, cwd=self.scratch, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
        try:
            o, _ = p.communicate(timeout=timeout)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            o, _ = p.communicate()
            rc = 'timeout'
        if rc != 0 and not allow_fail:
            sys.stderr.write(o[-4000:])
            why = repo_error(o) if rc != 'timeout' else None
            if why: self.violate(f'{script} {" ".join(os.path.basename(str(a)) for a in args)}', ['completes without an error'], dict(op='driver', exc=why, output=o[-3000:]))
            raise Machinery(f'driver {script} {args} failed ({rc})')
        return rc, o

    def path(self, name):
        return os.path.join(self.scratch, name)

    # ------------------------------------------------------------------ end
    def finish(self):
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=self.level, wall_s=round(time.time() - self.t0, 2),
                  violations=len(self.violations), assumptions=self.assumptions)
        cov = dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.validated,
                   samples=self.samples or ['none'], design_models=self.design, cases_per_operation=self.clauses)
        cov.update(self.cov)
        ev['coverage'] = cov
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        for k in {x[0]['id'] for x in self.known_seen}:
            kk = [x for x in self.known_seen if x[0]['id'] == k][0][0]
            print(f'KNOWN-FINDING: property={self.prop} {kk["what"]}')
        rc = 0
        if self.violations:
            rdir = os.path.join(VERIF, 'evidence', 'replay')
            os.makedirs(rdir, exist_ok=True)
            rp = os.path.join(rdir, f'{self.prop}.json')
            with open(rp, 'w') as f: json.dump(self.violations[:50], f, default=str)
            seen = set()
            for v in self.violations:
                s = f'{v["module"]}: {v["key"]}: {",".join(v["clauses"])}'
                if s in seen or len(seen) > 25: continue
                seen.add(s)
                print('  ' + s + (f'   [{v["case"].get("exc")}]' if v['case'].get('exc') else ''))
            print(f'VIOLATION property={self.prop} replay={rp}')
            rc = 1
        else:
            print(f'OK property={self.prop} states={self.states} cases={self.validated} wall={time.time() - self.t0:.1f}s')
        self.cleanup()
        return rc

    def cleanup(self):
        if os.environ.get('VERIF_KEEP'):
            print('scratch kept:', self.scratch)
        else:
            shutil.rmtree(self.scratch, ignore_errors=True)


EVAL_ERROR = r'Overflow when computing|Attempted to|applied to an argument not in its domain|which is not in the domain|The first argument of'


def repo_error(out):
    """The exception of the last frame inside the repository, if a traceback of the driver ends in the repository's code (or a library it called)
    and not in the harness; None otherwise."""
    for tb in reversed(re.findall(r'Traceback \(most recent call last\):\n((?:(?:  .*|)\n)+)(\S.*)', out)):
        frames = re.findall(r'File "([^"]+)", line (\d+), in (\S+)', tb[0])
        own = [f for f in frames if f[0].startswith((os.path.join(REPO, 'src'), os.path.join(VERIF, 'harness')))]
        if own and own[-1][0].startswith(os.path.join(REPO, 'src')): return f'{tb[1][:200]} ({os.path.basename(own[-1][0])}:{own[-1][1]} {own[-1][2]})'
    return None


def load_known():
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p): return []
    with open(p) as f: return json.load(f)['findings']
