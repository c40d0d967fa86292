"""Runs TLC on the specification modules in /verif/spec and reads what they export."""
import json, os, re, shutil, subprocess, tempfile, time

SPEC = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'spec')
TLA = os.environ.get('TLA_DIR', '/opt/veriftools/tla')
CP = TLA + '/tla2tools.jar:' + TLA + '/CommunityModules-deps.jar'


class TlcError(Exception):
    pass


def tla(v):
    """a Python value as a TLA+ constant of a .cfg file"""
    if isinstance(v, bool):
        return 'TRUE' if v else 'FALSE'
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return '"%s"' % v
    if isinstance(v, (set, frozenset, list, tuple)):
        return '{' + ', '.join(tla(x) for x in (sorted(v, key=str) if isinstance(v, (set, frozenset)) else v)) + '}'
    raise TypeError(v)


def cfg_text(consts, invariants=(), spec='Spec', properties=(), postcondition=None, constraint=None):
    t = ['SPECIFICATION ' + spec, 'CHECK_DEADLOCK FALSE', 'CONSTANTS']
    t += ['  %s = %s' % (k, tla(v)) for k, v in consts.items()]
    if invariants:
        t.append('INVARIANTS ' + ' '.join(invariants))
    if properties:
        t.append('PROPERTIES ' + ' '.join(properties))
    if postcondition:
        t.append('POSTCONDITION ' + postcondition)
    if constraint:
        t.append('CONSTRAINT ' + constraint)
    return '\n'.join(t) + '\n'


class Job:
    """one TLC process; num=None: exhaustive breadth-first search, else num simulated behaviours"""

    def __init__(self, work, module, consts, num=None, depth=60, seed=1, invariants=(), export=True,
                 mem='1500m', postcondition=None, env=None, **kw):
        self.dir = tempfile.mkdtemp(prefix='tlc_', dir=work)
        self.module, self.num = module, num
        self.out = os.path.join(self.dir, 'out.csv')
        consts = dict(consts)
        if export is not None:
            consts['OutFile'] = self.out if export else ''
        cfg = os.path.join(self.dir, 'M.cfg')
        with open(cfg, 'w') as f:
            f.write(cfg_text(consts, invariants, postcondition=postcondition, **kw))
        cmd = ['java', '-Xmx' + mem, '-XX:+UseSerialGC', '-XX:TieredStopAtLevel=4', '-Xss64m', '-cp', CP, 'tlc2.TLC',
               '-metadir', os.path.join(self.dir, 'meta'), '-config', cfg, '-workers', '1', '-noGenerateSpecTE']
        if num is not None:
            cmd += ['-simulate', 'num=%d' % num, '-depth', str(depth), '-seed', str(seed)]
        cmd.append(os.path.join(SPEC, module + '.tla'))
        self.log = open(os.path.join(self.dir, 'log'), 'w+')
        self.t0 = time.time()
        e = dict(os.environ)
        e.update(env or {})
        e.pop('JAVA_TOOL_OPTIONS', None)
        self.p = subprocess.Popen(cmd, stdout=self.log, stderr=subprocess.STDOUT, cwd=self.dir, env=e)

    def wait(self, timeout=800):
        """-> dict(states, transitions, violated, error, text)"""
        try:
            rc = self.p.wait(max(1, timeout))
        except subprocess.TimeoutExpired:
            self.p.kill()
            self.p.wait()
            raise TlcError('TLC did not finish in %ds: %s' % (timeout, self.module))
        self.wall = time.time() - self.t0
        self.log.seek(0)
        text = self.log.read()
        self.log.close()
        r = dict(states=0, transitions=0, behaviours=0, violated=None, rc=rc, text=text, wall=self.wall)
        m = re.search(r'(\d+) states generated, (\d+) distinct states found', text)
        if m:
            r['transitions'], r['states'] = int(m.group(1)), int(m.group(2))
        m = re.findall(r'Progress: (\d+) states checked, (\d+) traces generated', text)
        if m:
            r['states'] = r['transitions'] = int(m[-1][0])
            r['behaviours'] = int(m[-1][1])
        m = re.search(r'(Invariant \S+ is violated|[Pp]ostcondition .*|Temporal properties were violated|Assumption .* is false)', text)
        if m:
            r['violated'] = m.group(1)
        if rc != 0 and not r['violated']:
            raise TlcError('TLC failed (rc %d) on %s:\n%s' % (rc, self.module, text[-3000:]))
        return r

    def records(self):
        if not os.path.exists(self.out):
            return
        with open(self.out) as f:
            for line in f:
                line = line.strip()
                if line:
                    x = json.loads(line)
                    yield json.loads(x) if isinstance(x, str) else x

    def close(self):
        if self.p.poll() is None:
            self.p.kill()
            self.p.wait()
        shutil.rmtree(self.dir, ignore_errors=True)
