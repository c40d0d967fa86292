"""Binds GateTable.tla (the denotation of every request) to the code: dense, MPS, contraction, batch, inverse, update."""
from qlib import *
import deepquantum.layers.qlayer as fl


class Req:
    def __init__(self, rec):
        self.n, self.op, self.fun = rec['n'], rec['op'], rec['fun']
        self.tn, self.has, self.dag = rec['tn'], rec['has'], rec['dag']
        n = self.n
        self.cols = np.stack([amps(c) for c in rec['cols']], axis=1)
        if rec['ins']:
            v = np.stack([vec(x) for x in rec['ins']], axis=1)
            nm = np.linalg.norm(v, axis=0)
            self.ins, self.cols, self.full = v / nm, self.cols / nm, False
        else:
            self.ins, self.full = np.eye(2 ** n, dtype=complex), True
        self.nm = '%s%s on %d qubits' % (self.op['g'], self.op['w'], n)
        if self.op['p']:
            self.nm += ' params %s' % ([round(t, 4) for t in thetas(self.op['p'])],)

    def mix(self, rng):
        """a random superposition of the inputs and its image"""
        c = np.array([complex(rng.gauss(0, 1), rng.gauss(0, 1)) for _ in range(self.ins.shape[1])])
        v, w = self.ins @ c, self.cols @ c
        s = np.linalg.norm(v)
        return v / s, w / s

    def local(self):
        """the matrix on the operation's own wires, in the order listed"""
        k = len(self.op['w'])
        idx = []
        for l in range(2 ** k):
            i = 0
            for j, w in enumerate(self.op['w']):
                i |= ((l >> (k - 1 - j)) & 1) << (self.n - 1 - w)
            idx.append(i)
        return self.cols[np.ix_(idx, idx)]


FUN = dict(fring='ring_of_cnot', fring2='ring_of_cnot2', fringcz='ring_of_cz', fnncnot='nearest_neighbor_cnot',
           fnncz='nearest_neighbor_cz', fall2all='all2all_cnot', fXYZ='XYZLayer', fYZY='YZYLayer', fXZX='XZXLayer', fXZ='XZLayer',
           fH='HLayer', fRxx='RxxLayer', fRyy='RyyLayer', fRzz='RzzLayer')


def call_fun(r, rng):
    g, n = r.op['g'], r.n
    th = thetas(r.op['p'])
    par = rng.choice((list(th), torch.tensor(th), torch.tensor(th, requires_grad=True)))
    for pre, f in (('fbel2', 'basic_entangle_layer2'), ('fbel', 'basic_entangle_layer'), ('fsel', 'strong_entangle_layer')):
        if g.startswith(pre):
            s = g[len(pre):]
            if s == 'YZY' and rng.random() < 0.5:
                return getattr(fl, f)(n, par)
            return getattr(fl, f)(n, par, s)
    f = getattr(fl, FUN[g])
    if FUN[g].startswith(('ring', 'near', 'all')):
        if r.op['r'] == 1 and rng.random() < 0.5:
            return f(n)
        return f(n, r.op['r'] == 1)
    if g == 'fH':
        return f(n)
    return f(n, par)


def dense_of(r, U, key='dense', what=None):
    U = num(U)
    if U.shape != (2 ** r.n, 2 ** r.n):
        raise Bad(key, '%s: shape %s' % (what or r.nm, U.shape))
    close(U @ r.ins, r.cols, key, what or r.nm)
    if not r.full:
        close(U.conj().T @ U, np.eye(2 ** r.n), key, 'unitarity of ' + r.nm)


def gates(r, rng):
    """C01"""
    for form in (FORMS if r.op['p'] else ('float',)):
        g = make(r.op, r.n, form)
        for _ in range(2):
            dense_of(r, g.U_expand())
        if hasattr(g, 'matrix') and r.full:
            close(g.matrix, r.local(), 'matrix', 'matrix of ' + r.nm)
        c = Circuit(r.n)
        add(c, r.op, r.n, form, 'method')
        dense_of(r, c.U(), 'circuit', 'circuit holding only ' + r.nm)


def layers(r, rng):
    """C02"""
    if r.fun:
        dense_of(r, call_fun(r, rng), 'function')
        return
    for form in (FORMS if r.op['p'] else ('float',)):
        g = make(r.op, r.n, form)
        dense_of(r, g.U_expand())
    c = Circuit(r.n)
    add(c, r.op, r.n, rng.choice(FORMS), 'method')
    dense_of(r, c.U(), 'circuit', 'circuit holding only ' + r.nm)


def mps(r, rng):
    """C05"""
    n = r.n
    g = make(r.op, n, rng.choice(FORMS))
    if bool(g.supportTN) != r.tn:
        raise Bad('supportTN', 'supportTN of %s is %s' % (r.nm, g.supportTN))
    if not r.tn:
        return 'skip'
    pairs = list(zip(r.ins.T, r.cols.T))
    if len(pairs) > 6:
        pairs = rng.sample(pairs, 6)
    for v, w in pairs + [r.mix(rng), r.mix(rng)]:
        m = g.TN_operation(to_mps(v, n))
        wellformed(m, n, 'shape', 'MPS after ' + r.nm)
        close(from_mps(m), w, 'mps', 'TN_operation of ' + r.nm)


def contract(r, rng):
    """C06"""
    n = r.n
    g = make(r.op, n, rng.choice(FORMS))
    if not r.tn:
        return 'skip'
    for v, w in list(zip(r.ins.T, r.cols.T)) + [r.mix(rng)]:
        t = cvec(v).reshape([2] * n)
        close(g.TN_contract(t), w.reshape([2] * n), 'contract', 'TN_contract of ' + r.nm)
        close(t, v.reshape([2] * n), 'input', 'tensor passed to TN_contract of ' + r.nm, 1e-7)


def batch(r, rng):
    """C07"""
    n = r.n
    g = make(r.op, n, rng.choice(FORMS))
    if not r.tn:
        return 'skip'
    vs = list(zip(r.ins.T, r.cols.T))
    rng.shuffle(vs)
    vs += [r.mix(rng)]
    for k in (1, rng.randrange(1, len(vs) + 1), len(vs)):
        v, w = np.stack([a for a, _ in vs[:k]]), np.stack([b for _, b in vs[:k]])
        out = g.TN_contract(cvec(v).reshape([k] + [2] * n), batch_mod=True)
        close(out, w.reshape([k] + [2] * n), 'batch', 'batched TN_contract of %s, batch %d' % (r.nm, k))


def dagger(r, rng):
    """C08"""
    n = r.n
    if not r.has:
        return 'skip'
    g = make(r.op, n, rng.choice(FORMS))
    d = g.operation_dagger()
    D = num(d.U_expand())
    close(D @ r.cols, r.ins, 'dense', 'inverse of ' + r.nm)
    close(D.conj().T @ r.ins, r.cols, 'dense', 'adjoint of the inverse of ' + r.nm)
    e = make(r.dag, n, 'tensor')
    close(e.U_expand(), D, 'declared', 'the inverse of %s as an operation of its own' % r.nm)
    dd = d.operation_dagger()
    dense_of(r, dd.U_expand(), 'double', 'inverse of the inverse of ' + r.nm)
    if d.nqubits != n:
        raise Bad('nqubits', 'inverse of %s acts on %s qubits' % (r.nm, d.nqubits))
    if r.op['p']:
        if d.num_params != len(r.op['p']):
            raise Bad('params', 'inverse of %s has %s parameters' % (r.nm, d.num_params))
    if r.tn:
        if not d.supportTN:
            raise Bad('support', 'inverse of %s does not support tensor networks' % r.nm)
        vs = list(zip(r.ins.T, r.cols.T))
        for v, w in rng.sample(vs, min(3, len(vs))) + [r.mix(rng)]:
            close(from_mps(d.TN_operation(to_mps(w, n))), v, 'mps', 'inverse of %s on an MPS' % r.nm)
            close(num(d.TN_contract(cvec(w).reshape([2] * n))).reshape(-1), v, 'contract', 'inverse of %s by contraction' % r.nm)
        t = d.TN_contract(cvec(r.cols.T.copy()).reshape([-1] + [2] * n), batch_mod=True)
        close(num(t).reshape(-1, 2 ** n), r.ins.T, 'contract', 'inverse of %s by batched contraction' % r.nm)


def update(r, rng):
    """C09: an operation created with other parameters and then updated is the operation with the new ones"""
    n = r.n
    k = len(r.op['p'])
    if not k:
        return 'skip'
    for form in FORMS:
        old = [rng.uniform(-9, 9) for _ in range(k)]
        if len(old) == 1 and r.op['g'] in PAR1:
            old = torch.tensor(old[0], requires_grad=form == 'grad') if form != 'float' else old[0]
        elif form != 'float':
            old = torch.tensor(old, requires_grad=form == 'grad')
        g = make(r.op, n, params=old)
        g.U_expand()
        if rng.random() < 0.5:
            g.operation_dagger() if r.has else None
        for _ in range(rng.randrange(1, 3)):
            g.params_update(params_of(r.op, 'tensor') * 0.5 + 0.25)
        g.params_update(params_of(r.op, rng.choice(('tensor', 'grad'))))
        dense_of(r, g.U_expand(), 'U', 'updated ' + r.nm)
        if hasattr(g, 'matrix') and r.full and r.op['g'] not in LAYER:
            close(g.matrix, r.local(), 'matrix', 'matrix of updated ' + r.nm)
        close(num(torch.as_tensor(g.info()['params'])).reshape(-1) + 0.0, np.array(thetas(r.op['p'])), 'info',
              'reported parameters of updated ' + r.nm, 1e-5)
        v, w = r.mix(rng)
        if r.tn:
            close(from_mps(g.TN_operation(to_mps(v, n))), w, 'mps', 'updated %s on an MPS' % r.nm)
            close(num(g.TN_contract(cvec(v).reshape([2] * n))).reshape(-1), w, 'contract', 'updated %s by contraction' % r.nm)
            two = torch.stack([cvec(v).reshape([2] * n), cvec(r.ins[:, 0]).reshape([2] * n)])
            close(num(g.TN_contract(two, batch_mod=True)).reshape(2, -1), np.stack([w, r.cols[:, 0]]), 'batch',
                  'updated %s by batched contraction' % r.nm)
        if r.has:
            close(num(g.operation_dagger().U_expand()) @ w, v, 'dagger', 'inverse of updated ' + r.nm)


PROJ = dict(gates=gates, layers=layers, mps=mps, contract=contract, batch=batch, dagger=dagger, update=update)


def run(proj, rec):
    rng = rng_of(proj, rec['n'], str(rec['op']))
    torch.manual_seed(0)
    return PROJ[proj](Req(rec), rng)
