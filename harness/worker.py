"""One shard of a stage: runs TLC on a specification module, then replays every exported behaviour on the code.
usage: worker.py JOB.json RESULT.jsonl      (JOB: module, consts, num, depth, seed, proj, limit, records)
RESULT lines: {"t": "tlc"|"begin"|"fail"|"done"|"error", ...}"""
import hashlib, json, os, re, signal, sys, time, traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import tlc


class Timeout(Exception):
    pass


def alarm(*_):
    raise Timeout()


def accept(job, traces, put):
    """has TLC decide whether the recorded traces are behaviours of the acceptor module; reports each rejected one"""
    for _ in range(3):
        if not job.get('accept') or not traces:
            return
        a = job['accept']
        tf = sys.argv[2] + '.ndjson'
        with open(tf, 'w') as f:
            for _, t in traces:
                f.write(json.dumps(t) + '\n')
        j = tlc.Job(job['work'], a['module'], dict(job['consts'], TraceFile=tf), seed=1, invariants=a['invariants'], export=False,
                    spec=a['spec'], mem='2500m')
        r = j.wait(700)
        j.close()
        put(t='tlc', states=r['states'], transitions=r['transitions'], behaviours=0, violated=None, wall=r['wall'], tail='')
        if not r['violated']:
            return
        m = re.findall(r'/\\ t = (\d+)', r['text']), re.findall(r'/\\ i = (\d+)', r['text'])
        if not m[0] or not m[1]:
            raise tlc.TlcError('no trace number in ' + r['text'][-3000:])
        k, i = int(m[0][-1]) - 1, int(m[1][-1])
        rec, t = traces[k]
        e = t['ev'][i - 1] if i else dict(a='start')
        put(t='fail', key=e['a'], rec=rec,
            msg='the recorded session is not a behaviour of %s: after event %d (%s) something differs from what it was before, observed %s, '
                'earlier %s' % (a['module'], i, json.dumps(e), json.dumps(t['obs'][i]), json.dumps(t['obs'][i - 1] if i else None)))
        traces = traces[:k] + traces[k + 1:]


def main():
    job = json.load(open(sys.argv[1]))
    out = open(sys.argv[2], 'w')

    def put(**kw):
        out.write(json.dumps(kw) + '\n')
        out.flush()

    try:
        if job.get('records') is not None:
            recs, j = job['records'], None
        else:
            j = tlc.Job(job['work'], job['module'], job['consts'], job.get('num'), job.get('depth', 60), job['seed'],
                        job.get('invariants', ()), job.get('export', True), job.get('mem', '1500m'),
                        postcondition=job.get('post'), spec=job.get('spec', 'Spec'), properties=job.get('properties', ()),
                        env=job.get('env'))
            recs = None
        mod = None
        err = None
        if job.get('proj'):
            try:
                mod = __import__(job['projmod'])
            except BaseException:
                err = traceback.format_exc()
        if j is not None:
            r = j.wait(job.get('tlc_timeout', 700))
            put(t='tlc', states=r['states'], transitions=r['transitions'], behaviours=r['behaviours'],
                violated=r['violated'], wall=r['wall'], tail=r['text'][-1500:] if r['violated'] else '')
            recs = j.records()
    except tlc.TlcError as e:
        put(t='error', what=str(e))
        return
    except Exception:
        put(t='error', what=traceback.format_exc())
        return
    if not job.get('proj'):
        put(t='done', n=0, distinct=0, skipped=0)
        j and j.close()
        return
    if err is not None:
        # is it our own module or the code under test that does not import?
        put(t='fail', key='import', msg='the code under test does not import:\n' + err[-1500:], rec=None)
        put(t='done', n=0, distinct=0, skipped=0)
        j and j.close()
        return
    signal.signal(signal.SIGALRM, alarm)
    n = skipped = 0
    seen = set()
    steps = 0
    t0 = time.time()
    sample = None
    nfail = 0
    traces = []
    cur = sys.argv[2] + '.cur'
    for rec in recs:
        if time.time() - t0 > job.get('budget', 600):
            break
        n += 1
        h = hashlib.sha1(json.dumps(rec, sort_keys=True).encode()).digest()
        seen.add(h)
        steps += len(rec.get('ev', ())) or 1
        if sample is None:
            sample = rec
        with open(cur, 'w') as f:
            json.dump(rec, f)
        try:
            signal.alarm(job.get('limit', 60))
            try:
                r = mod.run(job['proj'], rec)
                if r == 'skip':
                    skipped += 1
                elif job.get('accept'):
                    traces.append((rec, r))
            finally:
                signal.alarm(0)
        except mod.Spec:
            put(t='error', what=traceback.format_exc()[-3000:])
            return
        except BaseException as e:
            key = getattr(e, 'key', None) if isinstance(e, mod.Bad) else 'exception'
            if key is None:
                key = 'exception'
            msg = str(e) if isinstance(e, mod.Bad) else traceback.format_exc()[-1800:]
            if isinstance(e, Timeout):
                key, msg = 'timeout', 'no answer within %d s' % job.get('limit', 60)
            put(t='fail', key=key, msg=msg, rec=rec)
            nfail += 1
            if nfail >= job.get('maxfail', 25):
                break
    try:
        accept(job, traces, put)
    except tlc.TlcError as e:
        put(t='error', what=str(e))
        return
    put(t='done', n=n, distinct=len(seen), skipped=skipped, steps=steps, wall=time.time() - t0,
        sample=json.dumps(sample)[:1500] if sample is not None else None)
    j and j.close()


main()
