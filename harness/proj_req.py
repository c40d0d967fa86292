"""Binds Requests.tla (which requests are served on which path) to the code: what the specification refuses must raise and
change nothing, what it serves must be answered with an object of the right shape."""
from qlib import *

SHAPE = {}


def tensors_equal(a, b):
    return len(a) == len(b) and all(x.shape == y.shape and torch.equal(x, y) for x, y in zip(a, b))


def state(n, rng):
    v = np.array([complex(rng.gauss(0, 1), rng.gauss(0, 1)) for _ in range(2 ** n)])
    return v / np.linalg.norm(v)


def angles(k, form, rng):
    p = [rng.uniform(-6, 6) for _ in range(k)]
    return p if form == 'list' else torch.tensor(p)


def values(q, k, rng):
    """k parameters in one of the forms the kind accepts"""
    if q['g'] in PAR1 and k == 1:
        return rng.choice((lambda p: p[0], lambda p: torch.tensor(p[0])))([rng.uniform(-6, 6)])
    return angles(k, rng.choice(('list', 'tensor')), rng)


def build(q, n, params):
    g, w = q['g'], list(q['w'])
    if g in ONE:
        w = w[0]
    c = cls(g)
    if g == 'BEL':
        return c(n, w, params, q['r'])
    if g in LAYP:
        return c(n, w, params)
    if g in LAYER:
        return c(n, w)
    if g in PAR1 or g in PAR3:
        return c(params, n, w)
    return c(n, w)


def method(cir, q, params):
    g, w = q['g'], list(q['w'])
    if g in ONE:
        w = w[0]
    f = getattr(cir, 'Hadamard' if g in ('H', 'HL') else CLS[g])
    if g == 'BEL':
        f(w, params, q['r'])
    elif g in LAYP:
        f(w, params)
    elif g in PAR1 or g in PAR3:
        f(params, w)
    else:
        f(w)


def attempt(f):
    """(served, value or error)"""
    try:
        return True, f()
    except Spec:
        raise
    except Bad:
        raise
    except Exception as e:
        return False, e


def name(q, n):
    return '%s%s with %d parameters%s on %d qubits' % (q['g'], q['w'], q['np'],
                                                       ', %d repetitions' % q['r'] if q['g'] == 'BEL' else '', n)


def verdict(want, got, key, what):
    ok, r = got
    if want and not ok:
        raise Bad(key + '-refused', '%s is well formed but refused: %r' % (what, r))
    if ok and not want:
        raise Bad(key + '-accepted', '%s is malformed or unsupported but gives a value' % what)


def requests(rec, rng):
    n, q, want = rec['n'], rec['req'], rec['want']
    nm = name(q, n)
    D = 2 ** n
    npar = 0 if q['g'] not in (PAR1 | PAR3 | LAYP) else q['np']
    take = lambda: values(q, npar, rng)

    # dense
    got = attempt(lambda: num(build(q, n, take()).U_expand()))
    verdict(want['u'], got, 'U', 'U_expand of ' + nm)
    if got[0] and got[1].shape != (D, D):
        raise Bad('U-shape', 'U_expand of %s has shape %s' % (nm, got[1].shape))

    # MPS: whatever happens, a refusal leaves the state alone
    mps = to_mps(state(n, rng), n)
    keep = [t.clone() for t in mps]

    def evolve():
        o = build(q, n, take())
        r = o.TN_operation(mps)
        wellformed(r, n, 'mps-shape', 'MPS after ' + nm)
        return r
    got = attempt(evolve)
    verdict(want['tn'], got, 'mps', 'TN_operation of ' + nm)
    if not got[0] and not tensors_equal(mps, keep):
        raise Bad('mps-changed', 'the MPS changed although TN_operation refused ' + nm)

    # contraction, plain and batched
    v = cvec(state(n, rng)).reshape([2] * n)
    two = torch.stack([v, v, v])
    for batch, t in ((False, v), (True, two)):
        k = t.clone()
        got = attempt(lambda: build(q, n, take()).TN_contract(t, batch_mod=batch))
        if got[0] and want['tn'] and tuple(got[1].shape) != tuple(t.shape):
            raise Bad('contract-shape', 'TN_contract of %s turns shape %s into %s' % (nm, tuple(t.shape), tuple(got[1].shape)))
        verdict(want['tn'], got, 'contract', 'TN_contract(batch_mod=%s) of %s' % (batch, nm))
        if not torch.equal(t, k):
            raise Bad('contract-changed', 'TN_contract of %s changed its argument' % nm)

    # inverse
    got = attempt(lambda: num(build(q, n, take()).operation_dagger().U_expand()))
    verdict(want['dag'], got, 'dagger', 'the inverse of ' + nm)

    # in a circuit holding other operations
    for how in ('method', 'add'):
        if how == 'method' and q['g'] == 'ringd':
            continue
        c = Circuit(n)
        c.rx(0.4, 0)
        if n > 1:
            c.cnot([n - 1, 0])
        U0 = num(c.U())
        len0, par0, np0 = len(c.gate), dict(c.cir_params), c.cir_num_params
        if how == 'method':
            took = attempt(lambda: method(c, q, take()))
        else:
            took = attempt(lambda: c.add(build(q, n, take())))
        if took[0]:
            verdict(want['u'], attempt(c.U), 'circuit', 'U of a circuit with ' + nm)
            m = to_mps(state(n, rng), n)
            k = [t.clone() for t in m]
            got = attempt(lambda: c.TN_evolution(m))
            verdict(want['tn'], got, 'circuit-mps', 'TN_evolution with ' + nm)
            verdict(want['tn'], attempt(lambda: c.TN_contract_evolution(v)), 'circuit-contract', 'TN_contract_evolution with ' + nm)
            verdict(want['tn'], attempt(lambda: c.TN_contract_evolution(two, batch_mod=True)), 'circuit-contract',
                    'batched TN_contract_evolution with ' + nm)
            c.clear()
            close(c.U(), np.eye(D), 'circuit-clear', 'U after clear() of a circuit with ' + nm)
        else:
            verdict(want['u'], (False, took[1]), 'circuit', 'adding ' + nm)
            if len(c.gate) != len0 or c.cir_num_params != np0 or c.cir_params.keys() != par0.keys():
                raise Bad('circuit-changed', 'the circuit recorded something of the refused ' + nm)
            close(c.U(), U0, 'circuit-changed', 'U after refusing ' + nm, 1e-6)

    # update with that many parameters
    if npar or q['g'] in (PAR1 | PAR3 | LAYP):
        right = {1: 1, 3: 3}.get(1 if q['g'] in PAR1 else 3 if q['g'] in PAR3 else 0)
        if right is None:
            right = len(q['w']) * (2 if q['g'] in ('XZ', 'ZX') else 3) * q['r']
        placed, o = attempt(lambda: build(q, n, values(q, right, rng)))
        if placed and attempt(o.U_expand)[0]:
            U0 = num(o.U_expand())
            p0 = num(torch.as_tensor(o.params)).copy()
            new = torch.tensor([rng.uniform(-6, 6) for _ in range(npar)])
            if npar == 1 and q['g'] in PAR1:
                new = new.reshape(())
            got = attempt(lambda: o.params_update(new))
            verdict(want['u'], got, 'update', 'params_update with the parameters of ' + nm)
            if not got[0]:
                close(o.U_expand(), U0, 'update-changed', 'the operation after a refused update, ' + nm, 1e-6)
                close(torch.as_tensor(o.params), p0, 'update-changed', 'the parameters after a refused update, ' + nm, 1e-6)
                close(torch.as_tensor(o.info()['params']), p0, 'update-changed', 'info() after a refused update, ' + nm, 1e-6)
            else:
                close(torch.as_tensor(o.params).reshape(-1), new.reshape(-1), 'update', 'the parameters after updating ' + nm, 1e-6)


# ----------------------------------------------------------------- requests for values
def rand(shape, rng):
    k = int(np.prod(shape)) if len(shape) else 1
    v = np.array([complex(rng.gauss(0, 1), rng.gauss(0, 1)) for _ in range(k)])
    return cvec(v / np.linalg.norm(v)).reshape(shape)


def dens(shape, x, rng):
    """a density matrix when the shape allows it; trace one if x"""
    if len(shape) == 2 and shape[0] == shape[1]:
        a = np.array([[complex(rng.gauss(0, 1), rng.gauss(0, 1)) for _ in range(shape[0])] for _ in range(shape[0])])
        r = a @ a.conj().T
        r = r / np.trace(r)
        return cvec(r if x else r * rng.choice((0.5, 2.0, -1.0, 0.9)))
    r = np.zeros(shape, complex)
    for i in range(min(shape[:2])) if len(shape) >= 2 else ():
        r[(i, i) + (0,) * (len(shape) - 2)] = 1.0 / min(shape[:2])
    return cvec(r if len(shape) >= 2 else np.ones(shape) / max(1, r.size))


def prepare(a, n, rng):
    """(call, arguments) of one request for a value"""
    from deepquantum.gates import qmath as qm
    f, s, m, l, x = a['f'], list(a['s']), list(a['m']), list(a['l']), a['x']

    def some(c):
        for _ in range(rng.randrange(1, 3)):
            c.rx(rng.uniform(-3, 3), 0)
            if n > 1:
                c.cnot([n - 1, 0])
        return c
    if f in ('StateVec2MPS', 'MatrixProductState'):
        v = rand(s, rng)
        return lambda: getattr(tn, f)(v, n), [v]
    if f in ('Rho2MPS', 'MatrixProductDensityOperator'):
        v = dens(s, 1, rng)
        return lambda: getattr(tn, f)(v, n), [v]
    if f in ('partial_trace', 'partial_trace_old'):
        v = dens(s, x, rng)
        return lambda: getattr(qm, f)(v, n, l), [v, l]
    if f == 'ptrace':
        v = dens(s, 1, rng)
        return lambda: qm.ptrace(v, l[0], l[1]), [v]
    if f in ('expval', 'expval_rho'):
        v = rand(s, rng) if f == 'expval' else dens(s, x, rng)
        o = rand(m, rng)
        return lambda: qm.expval(v, o, f == 'expval_rho'), [v, o]
    if f in ('measure', 'measure_rho'):
        v = rand(s, rng) if f == 'measure' else dens(s, x, rng)
        i = l if len(l) != 1 else rng.choice((l, l[0]))
        return lambda: qm.measure(n, v, i), [v, l]
    if f == 'cir_expectation':
        v, o, c = rand(s, rng), rand(m, rng), some(Circuit(n))
        return lambda: c.cir_expectation(v, o, x == 1), [v, o]
    if f == 'TN_evolution':
        v, c = to_mps(state(s[0], rng), s[0]) if s[0] else [], some(Circuit(n))
        return lambda: c.TN_evolution(v), []
    if f in ('TN_contract_evolution', 'TN_contract_batch'):
        v, c = rand(s, rng), some(Circuit(n)) if rng.random() < 0.7 else Circuit(n)
        return lambda: c.TN_contract_evolution(v, batch_mod=f.endswith('batch')), [v]
    if f == 'MPS_inner_product':
        v, w = to_mps(state(s[0], rng), s[0]), to_mps(state(m[0], rng), m[0])
        return lambda: tn.MPS_inner_product(v, w), v + w
    if f == 'MPS_expec':
        v, o = to_mps(state(n, rng), n), [cvec(PAULI[rng.choice('XYZ')]) for _ in range(x)]
        return lambda: tn.MPS_expec(v, l, o), v + o + [l]
    if f == 'dag':
        v = rand(s, rng)
        return lambda: qm.dag(v), [v]
    raise Spec('unknown function ' + f)


def show(a, n):
    return '%s on %d qubits, shapes %s %s, qubits %s, choice %s' % (a['f'], n, a['s'], a['m'], a['l'], a['x'])


def ask(a, n, ok, rng):
    call, args = prepare(a, n, rng)
    keep = [x.clone() if isinstance(x, torch.Tensor) else list(x) for x in args]
    verdict(ok, attempt(call), a['f'], show(a, n))
    for x, y in zip(args, keep):
        if not (torch.equal(x, y) if isinstance(x, torch.Tensor) else x == y):
            raise Bad('argument', '%s changed its argument' % show(a, n))


def shapes(rec, rng):
    ask(rec['ask'], rec['n'], rec['ok'], rng)


# ----------------------------------------------------------------- histories
def history(rec, rng):
    import proj_session as ps
    s = ps.Scen(rec)
    n = s.n
    cir = Circuit(n)
    mps = [to_mps(v, n) for v in s.init]
    ten = [cvec(v).reshape([2] * n) for v in s.init]
    done = []

    def snapshot():
        return ([id(g) for g in cir.gate], [None if p is None else num(torch.as_tensor(p)).copy() for p in cir.cir_params.values()],
                list(cir.cir_params), int(cir.cir_num_params), [[t.clone() for t in m] for m in mps])

    def same(a, b, what):
        if a[0] != b[0] or a[2] != b[2] or a[3] != b[3] or any((x is None) != (y is None) or (x is not None and not np.array_equal(x, y))
                                                             for x, y in zip(a[1], b[1])):
            raise Bad('circuit-changed', 'the circuit changed although it refused %s' % what)
        if not all(tensors_equal(x, y) for x, y in zip(a[4], b[4])):
            raise Bad('mps-changed', 'the evolved MPS changed although the library refused %s' % what)

    for e in s.ev:
        done.append(e)
        if e['a'] == 'add':
            ps.apply_event(cir, e, n, rng)
            for b in range(s.B):
                mps[b] = cir.gate[-1].TN_operation(mps[b])
                ten[b] = cir.gate[-1].TN_contract(ten[b])
            continue
        if e['a'] == 'upd':
            ps.apply_event(cir, e, n, rng)
            mps = [cir.TN_evolution(to_mps(v, n)) for v in s.init]
            ten = [cir.TN_contract_evolution(cvec(v).reshape([2] * n)) for v in s.init]
            continue
        before = snapshot()
        if e['a'] == 'badask':
            what = show(e['ask'], n)
            ask(e['ask'], n, False, rng)
        elif e['a'] == 'badupd':
            g = cir.gate[e['i'] - 1]
            what = 'an update of operation %d with %d parameters' % (e['i'], e['np'])
            got = attempt(lambda: g.params_update(torch.tensor([rng.uniform(-6, 6) for _ in range(e['np'])])))
            verdict(False, got, 'update', what)
        else:
            q, want = e['req'], e['want']
            what = name(q, n)
            npar = q['np'] if q['g'] in (PAR1 | PAR3 | LAYP) else 0
            take = lambda: values(q, npar, rng)
            how = rng.randrange(4)
            if how == 0 and q['g'] != 'ringd':
                took = attempt(lambda: method(cir, q, take()))
                if took[0]:       # recorded; then evaluation must refuse it, and the circuit goes on without it
                    for path in rng.sample(('u', 'tn', 'con'), 3):
                        if path == 'u':
                            verdict(want['u'], attempt(cir.U), 'history-U', 'U with ' + what)
                        elif path == 'tn':
                            verdict(want['tn'], attempt(lambda: cir.TN_evolution(to_mps(s.init[0], n))), 'history-mps', 'TN_evolution with ' + what)
                        else:
                            verdict(want['tn'], attempt(lambda: cir.TN_contract_evolution(ten[0])), 'history-contract',
                                    'TN_contract_evolution with ' + what)
                    evs = [x for x in done if x['a'] in ('add', 'upd')]
                    cir.clear()
                    for x in evs:
                        ps.apply_event(cir, x, n, rng)
                    before = snapshot()
                elif want['u']:
                    raise Bad('history-refused', '%s is well formed but refused: %r' % (what, took[1]))
            elif how == 1:
                b = rng.randrange(s.B)
                verdict(want['tn'], attempt(lambda: build(q, n, take()).TN_operation(mps[b])), 'history-mps', 'TN_operation of ' + what)
            elif how == 2:
                verdict(want['tn'], attempt(lambda: build(q, n, take()).TN_contract(ten[0])), 'history-contract', 'TN_contract of ' + what)
            else:
                verdict(want['u'], attempt(lambda: build(q, n, take()).U_expand()), 'history-U', 'U_expand of ' + what)
        same(before, snapshot(), what)
    for b in range(s.B):
        close(num(cir.U()) @ s.init[b], s.psi[b], 'history-end', 'U at the end of the session')
        close(from_mps(mps[b]), s.psi[b], 'history-end', 'the MPS at the end of the session')
        close(num(ten[b]).reshape(-1), s.psi[b], 'history-end', 'the contracted state at the end of the session')


PROJ = dict(requests=requests, shapes=shapes, history=history)


def run(proj, rec):
    rng = rng_of(proj, rec['n'], str(rec.get('req') or rec.get('ask') or rec.get('ev')))
    torch.manual_seed(0)
    return PROJ[proj](rec, rng)
