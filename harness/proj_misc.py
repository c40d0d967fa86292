"""Binds Legacy, StateTable, Encode, Matrices and Quanv to the code."""
import contextlib, io
from qlib import *
from deepquantum.gates.qgate import Circuit as Old
from deepquantum.gates import qmath
import deepquantum.embeddings as emb
from deepquantum.embeddings import qstate
from deepquantum.nn.modules.quanv import QuanConv2D


# ------------------------------------------------------------------------------------------- C18
METHOD = dict(H='Hadamard', X='x_gate', Y='y_gate', Z='z_gate', mcc='multi_control_cnot')


def request(c, op, form):
    g = op['g']
    w = [int(x) for x in op['w']]
    f = getattr(c, METHOD.get(g, g))
    if g in ('rxx', 'ryy', 'rzz', 'rx', 'ry', 'rz'):
        t = thetas(op['p'])[0]
        f(*w, t if form == 'float' else torch.tensor(t, requires_grad=form == 'grad'))
    elif g == 'mcc':
        cl = list(w[:-1])
        f(cl, w[-1])
        if cl != w[:-1]:
            raise Bad('input', 'multi_control_cnot changed its control list')
    else:
        f(*w)


def which(x):
    return [int(x)] if isinstance(x, int) else [int(y) for y in x]


def legacy_book(c, kept, what):
    if len(c.gate_list) != len(kept) or len(c.u) != len(kept):
        raise Bad('book', '%s: %d gates and %d matrices recorded for %d requests' % (what, len(c.gate_list), len(c.u), len(kept)))
    for x, (label, op) in zip(c.gate_list, kept):
        if x['gate'] != label or which(x['which_qubit']) != [int(y) for y in op['w']]:
            raise Bad('book', '%s: recorded %s on %s for %s on %s' % (what, x['gate'], x['which_qubit'], label, op['w']))
        if op['p']:
            close(np.array(float(x['theta'])), np.array(thetas(op['p'])[0]), 'book', '%s: recorded angle' % what, 1e-5)


def legacy(rec, rng):
    n = rec['n']
    ins = np.stack([vec(v) for v in rec['init']], axis=1)
    nm = np.linalg.norm(ins, axis=0)
    ins = ins / nm
    c, other = Old(n), Old(n)
    kept = []
    for i, ev in enumerate(rec['ev']):
        what = 'step %d: %s %s' % (i, ev['op']['g'], ev['op']['w'])
        before = [(id(x), dict(x)) for x in c.gate_list], [(id(x), x.clone()) for x in c.u]
        form = rng.choice(FORMS)
        if ev['a'] == 'bad':
            try:
                request(c, ev['op'], form)
            except Exception:
                pass
            else:
                raise Bad('accepted', what + ' on %d qubits was accepted' % n)
        else:
            request(c, ev['op'], form)
            kept.append((ev['label'], ev['op']))
        legacy_book(c, kept, what)
        for (k, x), y in zip(before[0], c.gate_list):
            if k != id(y) or any(x[z] is not y.get(z) and x[z] != y.get(z) for z in x):
                raise Bad('book', what + ': an earlier entry changed')
        for (k, x), y in zip(before[1], c.u):
            if not torch.equal(x, y.detach() if False else y):
                raise Bad('book', what + ': an earlier matrix changed')
        if ev['a'] == 'ok' and rng.random() < 0.4 or i + 1 == len(rec['ev']):
            want = np.stack([amps(s) for s in ev['psi']], axis=1) / nm
            close(num(c.U()) @ ins, want, 'U', 'U after ' + what)
    if other.gate_list or other.u:
        raise Bad('alias', 'a second circuit received gates')
    want = np.stack([amps(s) for s in rec['psi']], axis=1) / nm
    for _ in range(2):
        U = num(c.U())
        close(U @ ins, want, 'U', 'U of the whole program')
        close(num(c.gate_sequence_product()) @ ins, want, 'U', 'gate_sequence_product')
        close(U.conj().T @ U, np.eye(2 ** n), 'U', 'unitarity')
        if rec['rev']:
            rev = np.stack([amps(s) for s in rec['rev'][0]], axis=1) / nm
            close(num(c.gate_sequence_product(left_to_right=False)) @ ins, rev, 'rev', 'product in the other order')
    # ensemble of the final states
    p = np.array([rng.random() + 0.1 for _ in nm])
    p /= p.sum()
    rho = (want * p) @ want.conj().T
    z = np.stack([[frac(f).real for f in s] for s in rec['z']])      # states x qubits
    z = (p[:, None] * z / (nm ** 2)[:, None]).sum(0)
    t = cvec(rho)
    with contextlib.redirect_stdout(io.StringIO()):
        m = c.measure(t, n)
    close(num(m), z.reshape(-1, 1), 'measure', 'measure of the ensemble of final states')
    close(t, rho, 'input', 'density matrix passed to measure', 1e-6)


# ------------------------------------------------------------------------------------------- C04
def states(rec, rng):
    n, v = rec['n'], vec(rec['v'])
    nv = np.linalg.norm(v)
    scales = [('normalised', 1 / nv), ('as given', 1.0), ('scaled', rng.choice((1e-3, 7.5, 1e3, 0.5 - 2j, 1j)))]
    forms = [(nm, v * s, torch.complex64) for nm, s in scales]
    forms.append(('double', v / nv, torch.complex128))
    if np.abs(v.imag).max() == 0:
        forms.append(('real', v.real / nv, torch.float32))
    for nm, w, dt in forms:
        what = '%s vector of class %s on %d qubits' % (nm, rec['cls'], n)
        size = max(1.0, np.abs(w).max() * 2 ** (n / 2))
        tol = 2e-6 * size
        if dt == torch.float32:
            t = torch.tensor(w, dtype=dt).reshape(1, -1)
        else:
            t = torch.tensor(np.asarray(w, complex), dtype=dt).reshape(1, -1)
        keep = t.clone()
        m = tn.StateVec2MPS(t, n)
        wellformed(m, n, 'shape', what)
        for i, x in enumerate(m):
            if x.shape[1] > rec['caps'][i] or x.shape[2] > rec['caps'][i + 1]:
                raise Bad('bond', '%s: tensor %d of shape %s, bonds at most %s' % (what, i, tuple(x.shape), rec['caps'][i:i + 2]))
        mm = [x.clone() for x in m]
        back = tn.MPS2StateVec(m)
        if tuple(back.shape) != (1, 2 ** n):
            raise Bad('row', '%s: vector of shape %s returned' % (what, tuple(back.shape)))
        close(back[0], w, 'row', what, tol)
        full = tn.MPS2StateVec(m, return_sv=False)
        close(full, w.reshape([2] * n), 'tensor', what + ', tensor of the chain', tol)
        r = tn.MatrixProductState(t, n)
        close(r, w.reshape([2] * n), 'rankn', what + ', rank-n form', 1e-6 * size)
        if rng.random() < 0.5:
            close(tn.MPS2StateVec(m, True)[0], w, 'row', what + ' (second time)', tol)
        for x, y in zip(m, mm):
            if not torch.equal(x, y):
                raise Bad('input', what + ': MPS2StateVec changed a tensor')
        if not torch.equal(t, keep):
            raise Bad('input', what + ': the vector was changed')
        # a second round trip from the returned vector, and from a non-contiguous view of the same row
        close(tn.MPS2StateVec(tn.StateVec2MPS(back.detach(), n))[0], w, 'again', what + ', second round', 3 * tol)
        col = t.reshape(-1, 1).repeat(1, 2)[:, :1].T
        close(tn.MPS2StateVec(tn.StateVec2MPS(col, n))[0], w, 'view', what + ' as a strided view', tol)
    t = cvec(v / nv)
    for shape in ((2 ** n,), (2 ** n, 1), (2, 2 ** n), (1, 2 ** n + 1), (1, 2 ** (n + 1)), (1, 2 ** n - 1), (1, 1, 2 ** n)):
        L = int(np.prod(shape))
        b = torch.cat([t, t, t])[:L].reshape(shape)
        for f in (tn.StateVec2MPS, tn.MatrixProductState):
            try:
                f(b, n)
            except Exception:
                continue
            raise Bad('wrongshape', '%s accepted shape %s for %d qubits' % (f.__name__, shape, n))


# ------------------------------------------------------------------------------------------- C17
def raises(f, key, what):
    try:
        r = f()
    except Exception:
        return
    raise Bad(key, '%s was accepted and returned %s' % (what, str(r)[:80]))


def encode(rec, rng):
    n, q, a = rec['n'], rec['req'], rec['ans']
    o = q['o']
    x = vec(q['x']) if q['x'] else None
    w = [int(i) for i in q['w']]
    if o == 'amp':
        nrm = np.sqrt(a['n2'])
        want = vec(a['v']) / nrm
        real = np.abs(x.imag).max() == 0
        forms = [cvec(x), cvec(x * rng.choice((1e-3, 2.5, 300.0)))]
        if real:
            forms += [torch.tensor(x.real, dtype=torch.float32), torch.tensor(x.real, dtype=torch.float32, requires_grad=True)]
        for t in forms:
            keep = t.detach().clone()
            e = emb.AmplitudeEncoding(n, t)
            for _ in range(2):
                close(e.encoded_state(), want, 'amp', 'amplitude encoding of %s on %d qubits' % (x, n), 1e-5)
            if not torch.equal(keep, t.detach()):
                raise Bad('input', 'amplitude encoding changed its input')
    elif o == 'pauli':
        th = thetas(q['p'])
        want = np.stack([amps(c) for c in a['cols']], axis=1)
        ax = q['ax'][1].upper()
        what = 'Pauli encoding %s of %s on wires %s of %d qubits' % (ax, [round(t, 3) for t in th], w, n)
        for t in (list(th), torch.tensor(th), torch.tensor(th, requires_grad=True)):
            e = emb.PauliEncoding(n, t, w, ax)
            for _ in range(2):
                close(e.U_expand(), want, 'pauli', what)
            if ax == 'X':
                close(emb.PauliEncoding(n, t, w).U_expand(), want, 'pauli', what + ' (default axis)')
        c = np.array([complex(rng.gauss(0, 1), rng.gauss(0, 1)) for _ in range(2 ** n)])
        c /= np.linalg.norm(c)
        m = e.TN_operation(to_mps(c, n))
        close(from_mps(m), want @ c, 'paulimps', what + ' on an MPS')
        close(num(e.TN_contract(cvec(c).reshape([2] * n))).reshape(-1), want @ c, 'paulitn', what + ' by contraction')
    elif o == 'prep':
        want = np.array([[ring(z) for z in row] for row in a['cols']])
        close(qstate.PrepareState(list(x)), x, 'state', 'PrepareState', 1e-5)
        close(qstate.PrepareState(cvec(x)), x, 'state', 'PrepareState of a tensor', 1e-5)
        nrm = np.sqrt(a['n2'])
        close(qstate.PrepareRho(list(x / nrm)), want / a['n2'], 'rho', 'PrepareRho', 1e-5)
        close(qstate.PrepareRho(cvec(x / nrm)), want / a['n2'], 'rho', 'PrepareRho of a tensor', 1e-5)
        if np.abs(x.imag).max() == 0:
            close(qstate.PrepareRho([float(y) for y in x.real]), want, 'rho', 'PrepareRho of numbers', 1e-4)
    elif o in ('gram', 'signed'):
        want = np.array([[ring(z) for z in row] for row in a['cols']]) / a['n2']
        s = rng.choice((1.0, 1e-2, 3.7, 250.0))
        t = torch.tensor(x.real * s, dtype=torch.float32).reshape(1, -1)
        keep = t.clone()
        g = num(emb.gram_encoding(t))
        if o == 'gram':
            close(g, want, 'gram', 'Gram encoding of %s' % x.real, 1e-4)
        else:
            close(np.diag(g), np.diag(want), 'gram', 'diagonal of the Gram encoding of %s' % x.real, 1e-4)
            close(g @ g, g, 'gram', 'purity of the Gram encoding of %s' % x.real, 1e-4)
            close(np.abs(g), np.abs(want), 'gram', 'moduli of the Gram encoding of %s' % x.real, 1e-4)
            close(g, g.conj().T, 'gram', 'hermiticity', 1e-5)
        if not torch.equal(keep, t):
            raise Bad('input', 'Gram encoding changed its input')
    elif o == 'badlen':
        raises(lambda: emb.AmplitudeEncoding(n, cvec(x)).encoded_state(), 'toolong', '%d amplitudes for %d qubits' % (len(x), n))
    elif o == 'badnum':
        raises(lambda: emb.PauliEncoding(n, torch.tensor(x.real), w, q['ax'][1].upper()).U_expand(), 'toomany',
               '%d angles for %d qubits' % (len(x), n))
    elif o == 'badaxis':
        raises(lambda: emb.PauliEncoding(n, torch.tensor(x.real, dtype=torch.float32), w, q['ax']).U_expand(), 'axis', 'axis %r' % q['ax'])
    else:
        raise Spec(o)


# ------------------------------------------------------------------------------------------- C20
def mat(a):
    m = np.array([[ring(z) for z in row] for row in a['m']]).reshape(a['r'], a['c'])
    return m / (2.0 ** (a['k'] / 2.0) * a['d'])


def t128(m):
    return torch.tensor(np.asarray(m), dtype=torch.complex128)


def views(m, rng):
    """the same matrix, laid out differently"""
    yield t128(m)
    yield t128(m.T.copy()).T
    if np.abs(m.imag).max() == 0:
        yield torch.tensor(m.real, dtype=torch.float64)


def matrices(rec, rng):
    q, a = rec['req'], rec['ans']
    o = q['o']
    ms = [mat(x) for x in q['ms']]
    if o in ('unitary', 'hermitian', 'normal'):
        f = dict(unitary=qmath.IsUnitary, hermitian=qmath.IsHermitian, normal=qmath.IsNormalized)[o]
        if not a['yes']:                         # a violation below the resolution of the predicates decides nothing
            m = ms[0]
            gap = np.abs(m - m.conj().T).max() if o == 'hermitian' else np.abs(m @ m.conj().T - np.eye(len(m))).max()
            if gap < 3e-6:
                return 'skip'
        for t in views(ms[0], rng):
            if o == 'normal':
                t = t[0]
            keep = t.clone()
            for _ in range(2):
                r = f(t)
                if bool(r) != a['yes']:
                    raise Bad(o, '%s (%s at %s) says %s for\n%s' % (f.__name__, q['how'], q['at'], bool(r), ms[0]))
            if not torch.equal(t, keep):
                raise Bad('input', f.__name__ + ' changed its input')
        if o == 'normal':
            for sh in ((1, -1), (-1, 1)):
                raises(lambda: qmath.IsNormalized(t128(ms[0]).reshape(sh)), 'notvector', 'IsNormalized of a matrix')
        if a['yes'] and o == 'unitary':          # single precision, as gates are built
            n = int(round(np.log2(len(ms[0]))))
            if n <= 1 and not bool(qmath.IsUnitary(torch.tensor(np.round(ms[0], 15), dtype=torch.complex64))):
                e = ms[0].astype(np.complex64)
                if np.abs(e.astype(complex) @ e.astype(complex).conj().T - np.eye(len(e))).max() < 2e-7:
                    raise Bad(o, 'IsUnitary rejects a single-precision unitary\n%s' % e)
    elif o == 'kron':
        ts = [t128(m) for m in ms]
        keep = [t.clone() for t in ts]
        r = qmath.multi_kron(ts)
        close(r, mat(a['m'][0]), 'kron', 'product of %s matrices' % len(ms), 1e-9)
        close(qmath.multi_kron([t.to(torch.complex64) for t in ts]), mat(a['m'][0]), 'kron', 'product in single precision', 2e-3)
        if len(ts) != len(keep) or any(not torch.equal(x, y) for x, y in zip(ts, keep)):
            raise Bad('input', 'multi_kron changed its input')
        if all(m.shape == (2, 2) for m in ms):
            close(Old(len(ms)).multi_kron(ts), mat(a['m'][0]), 'oldkron', 'legacy product', 1e-9)
    elif o == 'dag':
        for t in views(ms[0], rng):
            keep = t.clone()
            close(dq.dag(t), mat(a['m'][0]), 'dag', 'adjoint', 1e-12)
            close(dq.dag(dq.dag(t)), ms[0], 'dag', 'adjoint of the adjoint', 1e-12)
            if not torch.equal(t, keep):
                raise Bad('input', 'dag changed its input')
        raises(lambda: dq.dag(t128(ms[0]).reshape(-1)), 'notmatrix', 'dag of a vector')
    elif o == 'nonsquare':
        raises(lambda: qmath.IsUnitary(t128(ms[0])), 'nonsquare', 'IsUnitary of shape %s' % (ms[0].shape,))
        raises(lambda: qmath.IsHermitian(t128(ms[0])), 'nonsquare', 'IsHermitian of shape %s' % (ms[0].shape,))
    else:
        raise Spec(o)


# ------------------------------------------------------------------------------------------- C19
def quanv(rec, rng):
    K, S, H, W, B, n = rec['K'], rec['S'], rec['H'], rec['W'], rec['B'], rec['K'] ** 2
    what = 'kernel %d stride %d on %d images of %d x %d' % (K, S, B, H, W)
    net = QuanConv2D(n, S, K)
    mul = float(net.w_mul)
    with torch.no_grad():
        net.weight.copy_(torch.tensor(thetas(rec['wt'])) / mul)
    px = np.array(thetas(rec['img'])).reshape(B, 1, H, W) / np.pi
    img = torch.tensor(px, dtype=torch.float32)
    if rng.random() < 0.3:                       # only the first channel is read
        img = torch.cat([img, torch.rand(B, 1, H, W)], dim=1)
    keep, kw = img.clone(), net.weight.detach().clone()
    out = net(img)
    if tuple(out.shape) != (B, n, rec['rows'], rec['cols']):
        raise Bad('shape', '%s: output of shape %s, expected %s' % (what, tuple(out.shape), (B, n, rec['rows'], rec['cols'])))
    o = num(out)
    for x in rec['out']:
        if x['z']:
            close(o[x['b'], :, x['r'], x['c']], np.array([frac(f).real for f in x['z']]), 'window',
                  '%s: window (%d, %d) of image %d' % (what, x['r'], x['c'], x['b']))
    if not torch.equal(img, keep) or not torch.equal(net.weight.detach(), kw):
        raise Bad('input', what + ': the image or the weights were changed')
    if rec['grad']:
        g = rec['grad'][0]
        out[g['b'], g['q'], g['r'], g['c']].backward()
        if net.weight.grad is None:
            raise Bad('grad', what + ': no gradient reached the weights')
        close(net.weight.grad, np.array([frac(f).real for f in g['g']]) * mul, 'grad', what + ': gradient of output %s' % str(
            [g['b'], g['q'], g['r'], g['c']]), 2e-4)
    if B > 1 and rng.random() < 0.5:
        b = rng.randrange(B)
        close(net(img[b:b + 1])[0], o[b], 'batch', '%s: image %d alone' % (what, b))
    elif rng.random() < 0.3:
        close(net(img), o, 'again', what + ': second evaluation')


PROJ = dict(legacy=legacy, states=states, encode=encode, matrices=matrices, quanv=quanv)


def run(proj, rec):
    torch.manual_seed(0)
    return PROJ[proj](rec, rng_of(proj, str(rec)[:3000]))
