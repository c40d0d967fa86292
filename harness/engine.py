"""Runs the stages of one check: shards in parallel, collects results, writes evidence, reports."""
import json, os, re, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
EVID = os.path.join(ROOT, 'evidence')
KNOWN = os.path.join(ROOT, 'known-findings.txt')
REPO = os.environ.get('REPO_DIR', '/repo')
PY = '/opt/venv/bin/python'


def known(prop):
    """the listed findings of one property: [(key pattern, text)]"""
    r = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', line.strip())
            if m and m.group(1) == prop:
                r.append((m.group(2), m.group(3)))
    return r


def env():
    e = dict(os.environ)
    e.update(PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', OMP_NUM_THREADS='1', MKL_NUM_THREADS='1',
             OPENBLAS_NUM_THREADS='1', CUDA_VISIBLE_DEVICES='', MPLBACKEND='Agg', PYTHONWARNINGS='ignore')
    return e


class Engine:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix='verif_%s_' % prop)
        e = env()
        self.env = dict(e, TMPDIR=self.work, HOME=self.work, MPLCONFIGDIR=self.work)
        self.fails, self.errors = [], []
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0)
        self.stages, self.samples = [], []
        self.par = min(8, os.cpu_count() or 8)

    def shards(self, stage):
        """a stage is a dict: name, module, consts, shards, num, depth, invariants, proj, projmod, ..."""
        k = stage.get('shards', 1)
        for i in range(k):
            j = {x: y for x, y in stage.items() if x not in ('shards', 'name', 'share')}
            j['work'] = self.work
            j['seed'] = 1000003 * self.seed + 7919 * i + stage.get('salt', 0) + 17
            if stage.get('share'):           # constants that differ by shard: exhaustive search split in parts
                j['consts'] = dict(j['consts'], **stage['share'](i, k))
            yield j

    def run(self, stages):
        jobs = []
        for s in stages:
            for j in self.shards(s):
                jobs.append((s, j))
        res = {}
        running, todo, idx = [], list(range(len(jobs))), 0
        hard = 860 if self.tier == 'quick' else 24 * 3600
        try:
            while todo or running:
                while todo and len(running) < self.par:
                    i = todo.pop(0)
                    s, j = jobs[i]
                    jf, rf = os.path.join(self.work, 'j%d.json' % i), os.path.join(self.work, 'r%d.jsonl' % i)
                    json.dump(j, open(jf, 'w'))
                    lg = open(os.path.join(self.work, 'l%d' % i), 'w')
                    p = subprocess.Popen([PY, os.path.join(HERE, 'worker.py'), jf, rf], env=self.env, stdout=lg,
                                         stderr=subprocess.STDOUT, cwd=self.work, start_new_session=True)
                    running.append((i, p, rf, lg))
                for x in list(running):
                    i, p, rf, lg = x
                    if p.poll() is not None:
                        running.remove(x)
                        lg.close()
                        res[i] = (p.returncode, rf)
                if time.time() - self.t0 > hard:
                    self.errors.append('the check did not finish in %d s' % hard)
                    break
                time.sleep(0.05)
        finally:
            for i, p, rf, lg in running:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
        for i, (s, j) in enumerate(jobs):
            if i in res:
                self.collect(i, s, j, *res[i])
        for s in stages:
            self.stages.append(s['name'])

    def collect(self, i, s, j, rc, rf):
        lines = []
        if os.path.exists(rf):
            lines = [json.loads(x) for x in open(rf) if x.endswith('\n')]
        done = tlc_ok = False
        st = self.cov.setdefault('stages', {}).setdefault(s['name'], dict(module=s.get('module'), behaviours_replayed=0, distinct=0,
                                                                          states=0, transitions=0, steps=0, skipped=0))
        for x in lines:
            if x['t'] == 'tlc':
                tlc_ok = True
                for k in ('states', 'transitions'):
                    self.cov[k] += x[k]
                    st[k] += x[k]
                if x['violated']:
                    self.errors.append('%s: %s on the specification\n%s' % (s['name'], x['violated'], x['tail']))
            elif x['t'] == 'error':
                self.errors.append('%s: %s' % (s['name'], x['what']))
                done = True
            elif x['t'] == 'fail':
                self.fails.append(dict(stage=s['name'], proj=j['proj'], projmod=j['projmod'], key=x['key'], msg=x['msg'], rec=x['rec'],
                                       accept=s.get('accept'), consts=j.get('consts') if s.get('accept') else None))
            elif x['t'] == 'done':
                done = True
                self.cov['traces_validated_against_impl'] += x['n'] - x['skipped']
                st['behaviours_replayed'] += x['n'] - x['skipped']
                st['skipped'] += x['skipped']
                st['distinct'] += x['distinct']
                st['steps'] += x.get('steps', 0)
                if x.get('sample') and len(self.samples) < 4:
                    self.samples.append(x['sample'])
        if not done:
            log = open(os.path.join(self.work, 'l%d' % i)).read()[-1500:]
            if os.path.exists(rf + '.cur'):
                self.fails.append(dict(stage=s['name'], proj=j['proj'], projmod=j['projmod'], key='crash', rec=json.load(open(rf + '.cur')),
                                       msg='the process died (code %s) during a replay: %s' % (rc, log)))
            else:
                self.errors.append('%s: worker ended with code %s: %s' % (s['name'], rc, log))

    def finish(self, assumptions, note):
        kn = known(self.prop)
        hit = {k: 0 for k, _ in kn}
        new = []
        for f in self.fails:
            k = next((k for k, _ in kn if k == f['key']), None)
            if k is None:
                new.append(f)
            else:
                hit[k] += 1
        for k, text in kn:
            if hit[k]:
                print('KNOWN-FINDING: property=%s %s (%s)' % (self.prop, text, k))
        os.makedirs(EVID, exist_ok=True)
        rdir = os.path.join(EVID, 'replay')
        os.makedirs(rdir, exist_ok=True)
        for f in os.listdir(rdir):
            if f.startswith(self.prop + '-'):
                os.remove(os.path.join(rdir, f))
        seen = {}
        for f in new:
            seen.setdefault((f['stage'], f['key']), f)
        for n, f in enumerate(list(seen.values())[:8]):
            path = os.path.join(rdir, '%s-%d.json' % (self.prop, n))
            json.dump(dict(property=self.prop, **f), open(path, 'w'))
            print('VIOLATION property=%s replay=%s' % (self.prop, os.path.relpath(path, ROOT)))
            print('  [%s/%s] %s' % (f['stage'], f['key'], f['msg'][:600]))
        cov = dict(self.cov)
        cov['samples'] = self.samples
        cov['note'] = note
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level='model_checking', coverage=cov,
                  assumptions=assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(new))
        json.dump(ev, open(os.path.join(EVID, self.prop + '.json'), 'w'), indent=1)
        for e in self.errors:
            print('ERROR: ' + e[:3000], file=sys.stderr)
        print('%s: %d behaviours of the specification replayed, %d specification states, %.1f s'
              % (self.prop, cov['traces_validated_against_impl'], cov['states'], time.time() - self.t0))
        if new:
            return 1
        if self.errors:
            return 2
        if not cov['traces_validated_against_impl']:
            print('ERROR: nothing was replayed', file=sys.stderr)
            return 2
        return 0

    def close(self):
        shutil.rmtree(self.work, ignore_errors=True)
