"""Adapter between the specification's vocabulary and the public API of the code under test."""
import math, random, warnings
import numpy as np
import torch
warnings.filterwarnings('ignore')
torch.set_num_threads(1)
import deepquantum as dq
from deepquantum.gates import qtensornetwork as tn
from deepquantum.layers import qlayers as ql
from deepquantum.gates.qcircuit import Circuit, parameter_shift

W8 = np.exp(1j * np.pi / 4 * np.arange(4))
TOL = 1e-4


# ----------------------------------------------------------------- decoding
def ring(x):
    return complex(np.dot(np.asarray(x, dtype=float), W8))


def vec(v):
    return np.asarray(v, dtype=float).reshape(-1, 4) @ W8


def amps(s):
    """exact state record [k, d, v] -> complex amplitudes (not normalised)"""
    return vec(s['v']) / (2.0 ** (s['k'] / 2.0) * s['d'])


def frac(f):
    return ring(f['x']) / (2.0 ** (f['k'] / 2.0) * f['d'])


def theta(a):
    z = ring(a['z'])
    return 2.0 * math.atan2(z.imag, z.real) + 4.0 * math.pi * a['t']


def thetas(ps):
    return [theta(a) for a in ps]


# ----------------------------------------------------------------- operations
CLS = dict(H='Hadamard', X='PauliX', Y='PauliY', Z='PauliZ', rx='rx', ry='ry', rz='rz', u1='u1', u3='u3',
           rxx='rxx', ryy='ryy', rzz='rzz', cnot='cnot', cz='cz', SWAP='SWAP', cphase='cphase', cu3='cu3',
           toffoli='toffoli', mcc='multi_control_cnot', XYZ='XYZLayer', ZYX='ZYXLayer', YZY='YZYLayer',
           XZX='XZXLayer', XZ='XZLayer', ZX='ZXLayer', HL='HLayer', ring='ring_of_cnot',
           ringd='ring_of_cnot_dagger', ring2='ring_of_cnot2', BEL='BasicEntangleLayer')
ONE = {'H', 'X', 'Y', 'Z', 'rx', 'ry', 'rz', 'u1', 'u3'}
PAR1 = {'rx', 'ry', 'rz', 'u1', 'rxx', 'ryy', 'rzz', 'cphase'}
PAR3 = {'u3', 'cu3'}
LAYP = {'XYZ', 'ZYX', 'YZY', 'XZX', 'XZ', 'ZX', 'BEL'}
LAYER = LAYP | {'HL', 'ring', 'ringd', 'ring2'}
FORMS = ('float', 'tensor', 'grad')


def cls(g):
    name = CLS[g]
    return getattr(ql, name) if g in LAYER else getattr(dq, name)


def wires_of(op):
    w = [int(x) for x in op['w']]
    return w[0] if op['g'] in ONE else w


def params_of(op, form):
    """the operation's parameters in one of the accepted forms, None if it has none"""
    th = thetas(op['p'])
    g = op['g']
    if g in PAR1:
        if form == 'float':
            return th[0]
        return torch.tensor(th[0], requires_grad=(form == 'grad'))
    if g in PAR3 or g in LAYP:
        if form == 'float':
            return list(th)
        return torch.tensor(th, requires_grad=(form == 'grad'))
    return None


def make(op, n, form='tensor', params=None):
    """a new object of the code under test for one operation of the specification"""
    g = op['g']
    w = wires_of(op)
    if params is None:
        params = params_of(op, form)
    c = cls(g)
    if g in LAYER:
        if g == 'BEL':
            return c(n, w, params, op['r'])
        return c(n, w, params) if g in LAYP else c(n, w)
    if g in PAR1 or g in PAR3:
        return c(params, n, w)
    return c(n, w)


def add(cir, op, n, form='tensor', how='obj', params=None):
    """append through add() or through the convenience method of the circuit"""
    g = op['g']
    w = wires_of(op)
    if how == 'method' and g != 'ringd':
        if params is None:
            params = params_of(op, form)
        if g == 'H':
            cir.Hadamard(w)
        elif g == 'HL':
            cir.Hadamard(w)
        elif g in LAYER:
            f = getattr(cir, CLS[g])
            if g == 'BEL':
                f(w, params, op['r'])
            elif g in LAYP:
                f(w, params)
            else:
                f(w)
        elif g in PAR1 or g in PAR3:
            getattr(cir, CLS[g])(params, w)
        else:
            getattr(cir, CLS[g])(w)
    else:
        cir.add(make(op, n, form, params))


def num(x):
    """any real-code number or tensor -> numpy array"""
    if isinstance(x, torch.Tensor):
        return x.detach().resolve_conj().numpy()
    return np.asarray(x)


def cvec(v):
    return torch.tensor(np.asarray(v), dtype=torch.complex64)


class Spec(Exception):
    """the harness or the specification is at fault, not the code"""


class Bad(Exception):
    """a deviation of the code from the specification"""

    def __init__(self, key, msg):
        Exception.__init__(self, msg)
        self.key = key


def close(got, want, key, what, tol=TOL):
    got, want = np.asarray(num(got)), np.asarray(want)
    if got.shape != want.shape:
        raise Bad(key, '%s: shape %s, expected %s' % (what, got.shape, want.shape))
    if got.size:
        e = np.abs(got - want)
        if not np.all(np.isfinite(got)) or e.max() > tol:
            i = np.unravel_index(int(np.nanargmax(np.where(np.isfinite(e), e, 1e30))), e.shape)
            raise Bad(key, '%s: got %s, expected %s at %s (off by %.3g)'
                      % (what, got[i], want[i], list(map(int, i)), e[i]))


def wellformed(mps, n, key, what):
    if not isinstance(mps, list) or len(mps) != n:
        raise Bad(key, '%s: not a list of %d tensors' % (what, n))
    left = 1
    for i, t in enumerate(mps):
        s = tuple(t.shape)
        if len(s) != 3 or s[0] != 2 or s[1] != left:
            raise Bad(key, '%s: tensor %d has shape %s, left bond %d' % (what, i, s, left))
        left = s[2]
        if left > 2 ** min(i + 1, n - 1 - i):
            raise Bad(key, '%s: bond %d after tensor %d exceeds %d' % (what, left, i, 2 ** min(i + 1, n - 1 - i)))
    if left != 1:
        raise Bad(key, '%s: right boundary bond %d' % (what, left))


def to_mps(v, n):
    return tn.StateVec2MPS(cvec(v).view(1, -1), n)


def from_mps(m):
    return num(tn.MPS2StateVec(m)).reshape(-1)


PAULI = {'X': np.array([[0, 1], [1, 0]], complex), 'Y': np.array([[0, -1j], [1j, 0]]),
         'Z': np.array([[1, 0], [0, -1]], complex)}


def pauli_matrix(n, string):
    ms = [np.eye(2, dtype=complex) for _ in range(n)]
    for q, s in string:
        ms[q] = PAULI[s]
    m = np.eye(1, dtype=complex)
    for x in ms:
        m = np.kron(m, x)
    return m


def obs_matrix(n, obs):
    m = np.zeros((2 ** n, 2 ** n), complex)
    for c, s in obs:
        m += c * pauli_matrix(n, s)
    return m


def rng_of(*a):
    return random.Random(repr(a))
