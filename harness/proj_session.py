"""Replays behaviours of Session.tla on the real code; one projection per property.
Every projection gets one exported behaviour and a random source fixed by the behaviour, drives the code
through its public API and compares what it observes with the exact values of the specification."""
import copy
import numpy as np
import torch
from qlib import *


class Scen:
    def __init__(self, rec):
        self.rec = rec
        self.n = rec['n']
        raw = [vec(v) for v in rec['init']]
        self.norm = [float(np.linalg.norm(v)) for v in raw]
        self.raw = raw
        self.init = [v / s for v, s in zip(raw, self.norm)]
        self.B = len(raw)
        self.psi = self.states(rec['psi'])
        self.ev = rec['ev']
        self.circ = rec['circ']

    def states(self, lst):
        return [amps(s) / self.norm[b] for b, s in enumerate(lst)]

    def ops_after(self, j):
        """the program after event j (0-based)"""
        c = []
        for e in self.ev[:j + 1]:
            if e['a'] == 'add':
                c.append(e['op'])
            elif e['a'] == 'upd':
                c[e['i'] - 1] = e['op']
            else:
                c = []
        return c


def pick_form(rng):
    return rng.choice(FORMS)


def upd_params(op, rng):
    """new parameters for params_update: a tensor of angles (u3, cu3 also take a list)"""
    form = rng.choice(('tensor', 'tensor', 'grad'))
    if op['g'] in PAR3 and rng.random() < 0.3:
        form = 'float'
    return params_of(op, form)


def apply_event(cir, e, n, rng, form=None):
    f = form or pick_form(rng)
    if e['a'] == 'add':
        add(cir, e['op'], n, f, rng.choice(('obj', 'method')))
    elif e['a'] == 'upd':
        cir.gate[e['i'] - 1].params_update(upd_params(e['op'], rng))
    else:
        cir.clear()


def build(s, rng, form=None):
    cir = Circuit(s.n)
    for e in s.ev:
        apply_event(cir, e, s.n, rng, form)
    return cir


def name(ops):
    return ' '.join('%s%s' % (o['g'], o['w']) for o in ops)


def unitary_check(U, n, key, what):
    U = np.asarray(U)
    if U.shape != (2 ** n, 2 ** n):
        raise Bad(key, '%s: shape %s' % (what, U.shape))
    close(U.conj().T @ U, np.eye(2 ** n), key, what + ' unitarity')


# --------------------------------------------------------------------- C03
def c03(s, rng):
    n = s.n
    cir = Circuit(n)
    e0 = np.zeros(2 ** n)
    e0[0] = 1
    close(cir.state_init(), e0, 'state_init', 'state_init')
    close(cir.U(), np.eye(2 ** n), 'empty', 'U of the empty circuit')
    for j, e in enumerate(s.ev):
        apply_event(cir, e, n, rng)
        if rng.random() < 0.6 or j == len(s.ev) - 1:
            U = num(cir.U())
            want = s.states(e['psi'])
            for b in range(s.B):
                close(U @ s.init[b], want[b], 'U', 'U|psi> after event %d (%s)' % (j, name(s.ops_after(j))))
    U = num(cir.U())
    unitary_check(U, n, 'U', 'U')
    close(cir.U(left_to_right=True), U, 'U', 'U(left_to_right=True)')
    if s.rec['rev']:
        R = num(cir.U(left_to_right=False))
        want = s.states(s.rec['rev'][0])
        for b in range(s.B):
            close(R @ s.init[b], want[b], 'Urev', 'U(left_to_right=False)|psi>')


# --------------------------------------------------------------------- C05
def mps_steps(s, rng):
    n = s.n
    cir = Circuit(n)
    mps = [to_mps(v, n) for v in s.init]
    fresh = True
    for j, e in enumerate(s.ev):
        apply_event(cir, e, n, rng)
        tnok = e['book']['tn']
        if cir.TN_check() is not tnok:
            raise Bad('TN_check', 'TN_check() = %s for %s' % (cir.TN_check(), name(s.ops_after(j))))
        want = s.states(e['psi'])
        if e['a'] == 'add':
            g = cir.gate[-1]
            sup = not (e['op']['g'] in ('mcc', 'ring2', 'BEL') or
                       (e['op']['g'] in ('ring', 'ringd') and list(e['op']['w']) != list(range(n))))
            if bool(g.supportTN) != sup:
                raise Bad('supportTN', 'supportTN of %s is %s' % (name([e['op']]), g.supportTN))
            for b in range(s.B):
                if sup:
                    r = g.TN_operation(mps[b])
                    wellformed(r, n, 'shape', 'MPS after %s' % name([e['op']]))
                    close(from_mps(r), want[b], 'evolution', 'TN_operation of %s%s' %
                          (name([e['op']]), '' if fresh else ' after %s' % name(s.ops_after(j - 1))))
                    mps[b] = r
                else:
                    mps[b] = to_mps(want[b], n)
            fresh = False
        else:
            mps = [to_mps(v, n) for v in want]
            fresh = True
    ops = name(s.circ)
    if cir.TN_check():
        for b in range(s.B):
            r = cir.TN_evolution(to_mps(s.init[b], n))
            wellformed(r, n, 'shape', 'TN_evolution of ' + ops)
            close(from_mps(r), s.psi[b], 'evolution', 'TN_evolution of ' + ops)
        try:
            cir.TN_evolution(to_mps(s.init[0], n)[:-1])
        except Exception:
            pass
        else:
            raise Bad('refuse', 'TN_evolution accepts an MPS of the wrong length')
    else:
        try:
            cir.TN_evolution(to_mps(s.init[0], n))
        except Exception:
            pass
        else:
            raise Bad('refuse', 'TN_evolution serves an unsupported circuit: ' + ops)


# --------------------------------------------------------------------- C06
def contract_steps(s, rng):
    n = s.n
    cir = Circuit(n)
    shape = [2] * n
    cur = [cvec(v).reshape(shape) for v in s.init]
    for j, e in enumerate(s.ev):
        apply_event(cir, e, n, rng)
        want = s.states(e['psi'])
        if e['a'] == 'add' and cir.gate[-1].supportTN:
            for b in range(s.B):
                r = cir.gate[-1].TN_contract(cur[b])
                close(r, want[b].reshape(shape), 'contract', 'TN_contract of ' + name([e['op']]))
                cur[b] = r
        else:
            cur = [cvec(v).reshape(shape) for v in want]
    ops = name(s.circ)
    if cir.TN_check():
        for b in range(s.B):
            t = tn.MatrixProductState(cvec(s.init[b]).view(1, -1), n)
            close(cir.TN_contract_evolution(t), s.psi[b].reshape(shape), 'contract', 'TN_contract_evolution of ' + ops)
        try:
            cir.TN_contract_evolution(cvec(s.init[0]).reshape(shape + [1]))
        except Exception:
            pass
        else:
            raise Bad('refuse', 'TN_contract_evolution accepts a tensor of rank n+1')
    else:
        try:
            cir.TN_contract_evolution(cvec(s.init[0]).reshape(shape))
        except Exception:
            pass
        else:
            raise Bad('refuse', 'TN_contract_evolution serves an unsupported circuit: ' + ops)


# --------------------------------------------------------------------- C07
def batch(s, rng):
    n = s.n
    cir = Circuit(n)
    shape = [s.B] + [2] * n
    mk = lambda vs: torch.stack([cvec(v).reshape([2] * n) for v in vs])
    cur = mk(s.init)
    for j, e in enumerate(s.ev):
        apply_event(cir, e, n, rng)
        want = s.states(e['psi'])
        if e['a'] == 'add' and cir.gate[-1].supportTN:
            cur = cir.gate[-1].TN_contract(cur, batch_mod=True)
            close(cur, np.stack(want).reshape(shape), 'batch', 'batched TN_contract of %s, batch %d' % (name([e['op']]), s.B))
        else:
            cur = mk(want)
    if cir.TN_check():
        r = cir.TN_contract_evolution(mk(s.init), batch_mod=True)
        close(r, np.stack(s.psi).reshape(shape), 'batch', 'batched TN_contract_evolution of %s, batch %d' % (name(s.circ), s.B))
    cols = (cir.U() @ cvec(np.stack(s.init, axis=1)))
    for o in s.rec['obs']:
        M = torch.tensor(obs_matrix(n, o['o']), dtype=torch.complex64)
        want = np.array([frac(f).real / s.norm[b] ** 2 for b, f in enumerate(o['e'])])
        r = num(dq.expval(cols, M)).reshape(-1)
        close(r, want, 'expval', 'expval of a batch of %d columns' % s.B, 4 * TOL)


# --------------------------------------------------------------------- C08
def dagger(s, rng):
    n = s.n
    shape = [2] * n
    cir = build(s, rng)
    ds = []
    allhas, alltn = True, True
    for i, op in enumerate(s.circ):
        w = s.rec['dag'][i]
        allhas &= w['has']
        alltn &= w['tn']
        if not w['has']:
            continue
        g = cir.gate[i]
        nm = name([op])
        U = num(g.U_expand()).copy()
        p0 = None if not hasattr(g, 'params') else num(torch.as_tensor(g.params)).copy()
        d = g.operation_dagger()
        ds.append(d)
        D = num(d.U_expand())
        close(D, U.conj().T, 'matrix', 'inverse of ' + nm)
        close(d.operation_dagger().U_expand(), U, 'double', 'inverse of the inverse of ' + nm)
        close(g.U_expand(), U, 'changed', 'operation %s after taking its inverse' % nm, 1e-7)
        if p0 is not None:
            close(torch.as_tensor(g.params), p0, 'changed', 'parameters of %s after taking the inverse' % nm, 0.0)
        want = amps(w) / s.norm[0]
        close(D @ s.init[0], want, 'dense', 'inverse of %s on a state' % nm)
        if w['tn']:
            if not d.supportTN:
                raise Bad('support', 'inverse of %s does not support tensor networks' % nm)
            close(from_mps(d.TN_operation(to_mps(s.init[0], n))), want, 'mps', 'inverse of %s on an MPS' % nm)
            close(num(d.TN_contract(cvec(s.init[0]).reshape(shape))).reshape(-1), want, 'contract',
                  'inverse of %s by contraction' % nm)
            r = d.TN_operation(g.TN_operation(to_mps(s.init[0], n)))
            close(from_mps(r), s.init[0], 'mps', '%s undone on an MPS' % nm)
            two = torch.stack([cvec(v).reshape(shape) for v in s.init])
            r = d.TN_contract(g.TN_contract(two, batch_mod=True), batch_mod=True)
            close(r, num(two), 'contract', '%s undone on a batch' % nm)
    if allhas and s.circ:
        back = Circuit(n)
        for d in reversed(ds):
            back.add(d)
        V = num(back.U())
        for b in range(s.B):
            close(V @ s.psi[b], s.init[b], 'program', 'program undone (dense)')
        if alltn:
            for b in range(s.B):
                close(from_mps(back.TN_evolution(to_mps(s.psi[b], n))), s.init[b], 'program', 'program undone (MPS)')
                close(num(back.TN_contract_evolution(cvec(s.psi[b]).reshape(shape))).reshape(-1), s.init[b], 'program',
                      'program undone (contraction)')


# --------------------------------------------------------------------- C09
def view_op(g, n, v, sup):
    """everything an operation shows about itself, as arrays"""
    r = dict(U=num(g.U_expand()))
    if hasattr(g, 'matrix'):
        r['matrix'] = num(g.matrix)
    if hasattr(g, 'params'):
        r['params'] = num(torch.as_tensor(g.params)) + 0.0
        i = g.info()
        r['info'] = num(torch.as_tensor(i['params'])) + 0.0
    if sup:
        r['mps'] = from_mps(g.TN_operation(to_mps(v, n)))
        r['contract'] = num(g.TN_contract(cvec(v).reshape([2] * n)))
        r['bcontract'] = num(g.TN_contract(torch.stack([cvec(v).reshape([2] * n)] * 3), batch_mod=True))
    d = g.operation_dagger()
    if d is not None:
        r['dagger'] = num(d.U_expand())
        if sup:
            r['dmps'] = from_mps(d.TN_operation(to_mps(v, n)))
    return r


def update(s, rng):
    n = s.n
    cir = Circuit(n)
    for j, e in enumerate(s.ev):
        apply_event(cir, e, n, rng)
        if e['a'] == 'upd':
            g = cir.gate[e['i'] - 1]
            op = e['op']
            f = make(op, n, 'tensor')
            a, b = view_op(g, n, s.init[0], g.supportTN), view_op(f, n, s.init[0], g.supportTN)
            if set(a) != set(b):
                raise Bad('view', 'updated %s shows %s, a new one %s' % (name([op]), sorted(a), sorted(b)))
            for k in a:
                close(a[k], b[k], k, '%s of updated %s' % (k, name([op])))
            close(a['params'].reshape(-1), np.array(thetas(op['p'])), 'params', 'parameters of updated ' + name([op]), 1e-5)
            if g.num_params != len(op['p']):
                raise Bad('num', 'num_params of updated %s is %s' % (name([op]), g.num_params))
        elif e['a'] == 'add':
            g = cir.gate[-1]
            if not e['op']['p']:
                a = view_op(g, n, s.init[0], g.supportTN)
                g.params_update(torch.tensor([0.3, 1.2, 0.7]))
                b = view_op(g, n, s.init[0], g.supportTN)
                for k in a:
                    close(b[k], a[k], 'noparam', '%s of %s after a no-op update' % (k, name([e['op']])))
            else:
                view_op(g, n, s.init[0], g.supportTN)      # evaluate before later updates
        want = s.states(e['psi'])
        U = num(cir.U())
        for b in range(s.B):
            close(U @ s.init[b], want[b], 'circuit', 'circuit after event %d' % j)
    if cir.gate and cir.TN_check():
        close(from_mps(cir.TN_evolution(to_mps(s.init[0], n))), s.psi[0], 'circuit', 'TN_evolution after updates')
        close(num(cir.TN_contract_evolution(cvec(s.init[0]).reshape([2] * n))).reshape(-1), s.psi[0], 'circuit',
              'TN_contract_evolution after updates')


# --------------------------------------------------------------------- C10
def book(s, rng):
    n = s.n
    cir = Circuit(n)
    added, objs = [], []
    for j, e in enumerate(s.ev):
        before = list(cir.gate)
        apply_event(cir, e, n, rng)
        bk = e['book']
        what = 'after event %d (%s)' % (j, e['a'])
        if e['a'] == 'add':
            added.append(thetas(e['op']['p']))
            if any(x is not y for x, y in zip(before, cir.gate)):
                raise Bad('order', 'earlier entries changed ' + what)
        elif e['a'] == 'clr':
            added = []
        if len(cir.gate) != bk['len']:
            raise Bad('len', '%d operations recorded, %d expected %s' % (len(cir.gate), bk['len'], what))
        if int(cir.cir_num_params) != bk['np']:
            raise Bad('num', 'parameter count %s, %d expected %s' % (cir.cir_num_params, bk['np'], what))
        if sorted(cir.cir_params.keys()) != list(range(bk['len'])):
            raise Bad('keys', 'parameter record has entries %s %s' % (sorted(cir.cir_params), what))
        ops = s.ops_after(j)
        for i in range(bk['len']):
            p = cir.cir_params[i]
            if (p is None) != (bk['reg'][i] == 0):
                raise Bad('none', 'parameter record of entry %d is %s %s' % (i, p, what))
            if p is not None:
                close(num(torch.as_tensor(p)).reshape(-1) + 0.0, np.array(added[i]), 'record',
                      'parameter record of entry %d %s' % (i, what), 1e-5)
            if cir.gate[i].num_params != bk['reg'][i]:
                raise Bad('num', 'num_params of entry %d is %s %s' % (i, cir.gate[i].num_params, what))
            if cir.gate[i].nqubits != n:
                raise Bad('nqubits', 'nqubits of entry %d is %s' % (i, cir.gate[i].nqubits))
        if e['a'] != 'clr':
            i = (e['i'] if e['a'] == 'upd' else bk['len']) - 1
            inf = cir.gate[i].info()
            w = e['info']
            if inf['label'] != w['label']:
                raise Bad('label', 'label %r, expected %r' % (inf['label'], w['label']))
            for k, kk in (('contral_lst', 'ctrl'), ('target_lst', 'targ')):
                if list(inf[k]) != list(w[kk]):
                    raise Bad('info', '%s of %s is %s' % (k, name([e['op']]), inf[k]))
            if e['op']['p']:
                close(num(torch.as_tensor(inf['params'])).reshape(-1) + 0.0, np.array(thetas(e['op']['p'])), 'info',
                      'reported parameters of ' + name([e['op']]), 1e-5)
            elif inf['params'] is not None:
                raise Bad('info', 'reported parameters of %s: %s' % (name([e['op']]), inf['params']))
        if cir.nqubits != n:
            raise Bad('nqubits', 'nqubits changed')
    # a cleared circuit is a new one
    if rng.random() < 0.5:
        cir.clear()
        ref = Circuit(n)
        for c in (cir, ref):
            r2 = rng_of('again')
            for op in s.circ:
                add(c, op, n, 'tensor', r2.choice(('obj', 'method')))
        close(cir.U(), num(ref.U()), 'clear', 'circuit rebuilt after clear')
        if (int(cir.cir_num_params), sorted(cir.cir_params), len(cir.gate)) != \
           (int(ref.cir_num_params), sorted(ref.cir_params), len(ref.gate)):
            raise Bad('clear', 'circuit rebuilt after clear: %s' % cir.cir_params)


# --------------------------------------------------------------------- C11
def expect(s, rng):
    n = s.n
    cir = build(s, rng)
    for o in s.rec['obs'] + [dict(o=g['o'], e=[g['e']]) for g in s.rec['gradp']]:
        M = torch.tensor(obs_matrix(n, o['o']), dtype=torch.complex64)
        for b, f in enumerate(o['e']):
            w = frac(f) / s.norm[b] ** 2
            if abs(w.imag) > 1e-9:
                raise Spec('specification: expectation not real')
            x = cvec(s.init[b]).view(1, -1)
            for tnflag in (True, False):
                r = cir.cir_expectation(x, M, TN=tnflag)
                if torch.is_complex(r) or r.dim() != 0:
                    raise Bad('real', 'cir_expectation returns %s' % r)
                close(r, np.array(w.real), 'cir_expectation', 'cir_expectation(TN=%s) of %s in %s' % (tnflag, o['o'], name(s.circ)), 4 * TOL)
            close(cir.cir_expectation(x, M), np.array(w.real), 'cir_expectation', 'cir_expectation', 4 * TOL)
        # local observables on a matrix product state (single string; the coefficient goes into one factor)
        if len(o['o']) == 1:
            c, string = o['o'][0]
            string = list(string)
            rng.shuffle(string)
            if string:
                wires = [q for q, _ in string]
                mats = [PAULI[t] * (c if k == 0 else 1) for k, (_, t) in enumerate(string)]
            else:
                wires, mats = [rng.randrange(n)], [np.eye(2) * c]
            for b, f in enumerate(o['e']):
                w = frac(f).real / s.norm[b] ** 2
                mps = to_mps(s.psi[b], n)
                if cir.gate and cir.TN_check() and rng.random() < 0.5:
                    mps = cir.TN_evolution(to_mps(s.init[b], n))
                r = tn.MPS_expec(mps, wires, [torch.tensor(m, dtype=torch.complex64) for m in mats])
                if torch.is_complex(r):
                    raise Bad('real', 'MPS_expec returns %s' % r)
                close(r, np.array(w), 'MPS_expec', 'MPS_expec of %s on %s' % (o['o'], wires), 4 * TOL)
    for a, row in enumerate(s.rec['inner']):
        for b, f in enumerate(row):          # <psi_a|psi_b>: ket b, bra a
            w = frac(f) / s.norm[a] / s.norm[b]
            ket, bra = to_mps(s.psi[b], n), to_mps(s.psi[a], n)
            if cir.gate and cir.TN_check() and rng.random() < 0.5:
                ket = cir.TN_evolution(to_mps(s.init[b], n))
            r = tn.MPS_inner_product(ket, bra)
            close(num(r).reshape(()), np.array(w), 'inner', 'MPS_inner_product of states %d, %d' % (b, a))


# --------------------------------------------------------------------- C12
def measurement(s, rng):
    n = s.n
    T2 = sum(x ** 2 for x in s.norm)
    z = np.array([[frac(f).real for f in row] for row in s.rec['z']])      # B x n, not normalised
    rho = sum(np.outer(p, p.conj()) * x ** 2 for p, x in zip(s.psi, s.norm)) / T2
    zr = z.sum(axis=0) / T2
    sel = [None, rng.randrange(n), 0, [rng.randrange(n) for _ in range(rng.randrange(1, n + 2))],
           rng.sample(range(n), n), list(range(n))]
    crho = torch.tensor(rho, dtype=torch.complex64)

    def want(zs, ith):
        return zs if ith is None else zs[[ith]] if isinstance(ith, int) else zs[list(ith)]

    for ith in sel:
        for b in range(s.B):
            st = cvec(s.psi[b])
            if rng.random() < 0.3:
                st = st.view(1, -1)
            elif rng.random() < 0.3:
                st = st.view(-1, 1)
            r = dq.measure(n, st, ith) if ith is not None else dq.measure(n, st)
            if torch.is_complex(r):
                raise Bad('real', 'measure returns a complex tensor')
            close(num(r).reshape(-1), want(z[b] / s.norm[b] ** 2, ith), 'measure', 'measure(state, ith=%s)' % (ith,))
        r = dq.measure(n, crho, ith) if ith is not None else dq.measure(n, crho)
        close(num(r).reshape(-1), want(zr, ith), 'measure_rho', 'measure(rho, ith=%s)' % (ith,))
        pure = torch.tensor(np.outer(s.psi[0], s.psi[0].conj()), dtype=torch.complex64)
        r = dq.measure(n, pure, ith)
        close(num(r).reshape(-1), want(z[0] / s.norm[0] ** 2, ith), 'measure_rho', 'measure(pure rho, ith=%s)' % (ith,))
    for o in s.rec['obs']:
        M = torch.tensor(obs_matrix(n, o['o']), dtype=torch.complex64)
        e = np.array([frac(f).real for f in o['e']])
        per = e / np.array(s.norm) ** 2
        for b in range(s.B):
            st = cvec(s.psi[b]).view(rng.choice(((-1,), (-1, 1))))
            r = dq.expval(st, M)
            if torch.is_complex(r):
                raise Bad('real', 'expval returns a complex tensor')
            close(num(r).reshape(-1), per[b:b + 1], 'expval', 'expval(state) of %s' % (o['o'],), 4 * TOL)
        r = dq.expval(cvec(np.stack(s.psi, axis=1)), M)
        close(num(r).reshape(-1), per, 'expval', 'expval(batch) of %s' % (o['o'],), 4 * TOL)
        r = dq.expval(crho, M, rho=True)
        close(num(r).reshape(()), np.array(e.sum() / T2), 'expval_rho', 'expval(rho) of %s' % (o['o'],), 4 * TOL)
        try:
            dq.expval(crho * rng.choice((0.5, 1.01, 2.0, -1.0)), M, rho=True)
        except Exception:
            pass
        else:
            raise Bad('trace', 'expval accepts a density matrix of trace other than 1')


# --------------------------------------------------------------------- C13, C14
def snapshot(cir):
    return ([None if not hasattr(g, 'params') else num(torch.as_tensor(g.params)).copy() for g in cir.gate],
            num(cir.U()).copy(), int(cir.cir_num_params), list(cir.gate),
            {k: (None if v is None else num(torch.as_tensor(v)).copy()) for k, v in cir.cir_params.items()})


def restored(cir, snap):
    p, U, k, gl, cp = snap
    if len(gl) != len(cir.gate) or any(a is not b for a, b in zip(gl, cir.gate)):
        raise Bad('restored', 'the list of operations changed')
    for i, g in enumerate(cir.gate):
        if p[i] is not None:
            close(torch.as_tensor(g.params), p[i], 'restored', 'parameters of operation %d afterwards' % i, 0.0)
    close(cir.U(), U, 'restored', 'unitary afterwards', 1e-6)
    if int(cir.cir_num_params) != k:
        raise Bad('restored', 'parameter count afterwards')
    for i, v in cp.items():
        if v is not None:
            close(torch.as_tensor(cir.cir_params[i]), v, 'restored', 'parameter record %d afterwards' % i, 0.0)


def flat_grad(s, g):
    return np.array([frac(x).real for row in g['g'] for x in row]) / s.norm[0] ** 2


def shift_grad(s, rng):
    n = s.n
    cir = build(s, rng)
    for g in s.rec['grad'] + s.rec['gradp']:
        M = torch.tensor(obs_matrix(n, g['o']), dtype=torch.complex64)
        x = cvec(s.init[0]).view(1, -1)
        snap = snapshot(cir)
        r = parameter_shift(cir, x, M).cal_params_grad()
        close(num(r).reshape(-1), flat_grad(s, g), 'grad', 'gradient of %s in %s' % (g['o'], name(s.circ)), 5 * TOL)
        restored(cir, snap)


def sweep_grad(s, rng):
    n = s.n
    if not s.circ or not all(d['tn'] and d['has'] for d in s.rec['dag']):
        return 'skip'
    cir = build(s, rng)
    for g in s.rec['gradp']:
        (c, ((q, t),)), = g['o']
        M = torch.tensor(obs_matrix(n, g['o']), dtype=torch.complex64)
        oper = {'X': dq.PauliX, 'Y': dq.PauliY, 'Z': dq.PauliZ}[t](n, q)
        x = cvec(s.init[0]).view(1, -1)
        snap = snapshot(cir)
        ps = parameter_shift(cir, x, M)
        d, sv = ps.save_mid_MPS(oper)
        close(num(sv).reshape(-1), s.psi[0], 'final', 'final state of the sweep through ' + name(s.circ))
        for rep in range(2):
            r = ps.cal_params_grad2(d)
            close(num(r).reshape(-1), flat_grad(s, g), 'grad', 'sweep gradient of %s in %s' % (g['o'], name(s.circ)), 5 * TOL)
        restored(cir, snap)


# --------------------------------------------------------------------- C15
def autograd(s, rng):
    n = s.n
    for mode in ('U', 'contract', 'batch', 'measure'):
        for g in (s.rec['grad'] if mode != 'measure' else s.rec['gradp']):
            cir = Circuit(n)
            leaves, maps = [], []
            for i, op in enumerate(s.circ):
                if not op['p']:
                    add(cir, op, n)
                    leaves.append(None)
                    maps.append(None)
                    continue
                how = rng.choice(('new', 'method', 'update', 'inverse', 'linear'))
                dp = s.rec['dagp'][i]
                if how == 'inverse' and dp['has']:
                    leaf = params_of(dp['op'], 'grad')
                    cir.add(make(dp['op'], n, params=leaf).operation_dagger())
                    maps.append([(k, -1.0) for k in dp['map']])      # leaf j is minus parameter map[j]
                elif how == 'linear':          # the parameter is the result of a computation
                    th = params_of(op, 'tensor')
                    leaf = (th / 2.0).clone().requires_grad_(True)
                    add(cir, op, n, params=leaf * 2.0, how=rng.choice(('obj', 'method')))
                    maps.append([(k + 1, 2.0) for k in range(len(op['p']))])
                else:
                    leaf = params_of(op, 'grad')
                    if how == 'update':
                        add(cir, op, n, params=torch.zeros_like(leaf).detach())
                        cir.gate[-1].params_update(leaf)
                    else:
                        add(cir, op, n, params=leaf, how='method' if how == 'method' else 'obj')
                    maps.append([(k + 1, 1.0) for k in range(len(op['p']))])
                leaves.append(leaf)
            M = torch.tensor(obs_matrix(n, g['o']), dtype=torch.complex64)
            x = cvec(s.init[0])
            if mode == 'U':
                psi = cir.U() @ x.view(-1, 1)
                loss = (psi.conj().T @ M @ psi).real.squeeze()
            elif mode == 'measure':
                (c, ((q, t),)), = g['o']
                if t != 'Z':
                    continue
                psi = (cir.U() @ x.view(-1, 1)).view(-1)
                loss = c * dq.measure(n, psi, q).reshape(())
            else:
                if not cir.TN_check():
                    continue
                if mode == 'batch':
                    y = torch.stack([x.reshape([2] * n), cvec(s.init[-1]).reshape([2] * n)])
                    psi = cir.TN_contract_evolution(y, batch_mod=True)[0].reshape(-1, 1)
                else:
                    psi = cir.TN_contract_evolution(x.reshape([2] * n)).reshape(-1, 1)
                if rng.random() < 0.5:
                    loss = dq.expval(psi, M).reshape(())
                else:
                    loss = (psi.conj().T @ M @ psi).real.squeeze()
            close(loss, np.array(frac(g['e']).real / s.norm[0] ** 2), 'value', 'expectation through ' + mode, 4 * TOL)
            if not any(l is not None for l in leaves):
                continue
            if not loss.requires_grad:
                raise Bad('detached', 'the expectation through %s does not depend on any parameter (%s)' % (mode, name(s.circ)))
            gr = torch.autograd.grad(loss, [l for l in leaves if l is not None], allow_unused=True)
            k = 0
            for i, l in enumerate(leaves):
                if l is None:
                    continue
                ex = np.array([frac(v).real for v in g['g'][i]]) / s.norm[0] ** 2
                want = np.array([sg * ex[j - 1] for j, sg in maps[i]])
                got = np.zeros_like(want) if gr[k] is None else num(gr[k]).reshape(-1)
                close(got, want, 'grad', 'autograd through %s, operation %d of %s' % (mode, i, name(s.circ)), 8 * TOL)
                k += 1


# --------------------------------------------------------------------- C16
def density(s, rng):
    n = s.n
    T2 = sum(x ** 2 for x in s.norm)
    rho = sum(np.outer(p, p.conj()) * x ** 2 for p, x in zip(s.psi, s.norm)) / T2
    R = torch.tensor(rho, dtype=torch.complex64)
    keep = num(R).copy()

    def exact(e):
        D = e['r'][0]['dim']
        return sum(vec(r['m']).reshape(D, D) / (2.0 ** (r['k'] / 2.0) * r['d']) for r in e['r']) / T2

    e0, e1 = s.rec['rdm']
    W = exact(e0)
    tr = [int(q) for q in e0['tr']]
    for nm in ('partial_trace', 'partial_trace_old'):
        lst = list(tr)
        r = getattr(dq, nm)(R, n, lst)
        if lst != tr:
            raise Bad('caller', '%s changed the list of qubits' % nm)
        close(r, W, nm, '%s over %s of %d qubits' % (nm, tr, n))
        close(np.trace(num(r)), np.array(1.0), nm, 'trace after ' + nm)
    W1 = exact(e1)
    close(dq.ptrace(R, n - len(tr), len(tr)), W1, 'ptrace', 'ptrace keeping %d of %d qubits' % (n - len(tr), n))
    if n >= 1:
        r = tn.MPS2Rho(tn.Rho2MPS(R, n))
        close(num(r).reshape(2 ** n, 2 ** n), rho, 'mpo', 'MPS2Rho(Rho2MPS(rho))')
        ts = tn.Rho2MPS(R, n)
        left = 1
        if len(ts) != n:
            raise Bad('mposhape', 'Rho2MPS returns %d tensors' % len(ts))
        for i, t in enumerate(ts):
            if tuple(t.shape[:2]) != (2, 2) or t.shape[2] != left:
                raise Bad('mposhape', 'tensor %d of the operator has shape %s, left bond %d' % (i, tuple(t.shape), left))
            left = t.shape[3]
        if left != 1:
            raise Bad('mposhape', 'right boundary bond %d' % left)
        close(tn.MatrixProductDensityOperator(R, n), rho.reshape([2] * (2 * n)), 'mpdo', 'MatrixProductDensityOperator')
        if rng.random() < 0.3:
            close(num(tn.MPS2Rho(tn.Rho2MPS(dq.dag(R), n))).reshape(2 ** n, 2 ** n), rho.conj().T, 'mpo', 'operator form of dag(rho)')
    close(R, keep, 'caller', 'the density matrix passed in', 0.0)


PROJ = dict(c03=c03, mps=mps_steps, contract=contract_steps, batch=batch, dagger=dagger, update=update, book=book,
            expect=expect, measure=measurement, shift=shift_grad, sweep=sweep_grad, autograd=autograd, density=density)


def run(proj, rec):
    rng = rng_of(proj, str(rec['n']), len(rec['ev']), str(rec['psi'][0])[:400])
    torch.manual_seed(0)
    return PROJ[proj](Scen(rec), rng)
