"""Runs sessions of Purity.tla on the code and records what was observed, for PurityTrace.tla to accept or reject."""
from qlib import *
from deepquantum.gates import qmath as qm, qgate
import deepquantum.embeddings as emb
from deepquantum.embeddings import qstate
from deepquantum.nn.modules import quanv
import deepquantum.layers.qlayer as fl


ALWAYS = ('upd', 'add', 'clr', 'copy', 'fresh', 'sv2mps', 'mpstensor', 'rho2mps', 'mpdo', 'ptrace', 'partial', 'partial_old', 'measv', 'measr',
          'expv', 'expr', 'dag', 'isu', 'ish', 'isn', 'kron', 'amp', 'pauli', 'prep', 'gram', 'legacy', 'layerfn', 'quanv', 'gU', 'cU', 'cUrev', 'ccheck',
          'cinit', 'cexp', 'cshift', 'mvec', 'mtensor', 'mexpec', 'minner', 'ginfo')      # evaluations that are never refused


class Classes:
    """numbers classes of indistinguishable values, kind by kind"""

    def __init__(self):
        self.reps = {}

    def same(self, a, b):
        if type(a) is not type(b):
            return False
        if isinstance(a, np.ndarray):
            return a.shape == b.shape and (a.size == 0 or bool(np.allclose(a, b, rtol=1e-3, atol=1e-4, equal_nan=True)))
        if isinstance(a, (list, tuple)):
            return len(a) == len(b) and all(self.same(x, y) for x, y in zip(a, b))
        if isinstance(a, float):
            return abs(a - b) <= 1e-4
        return a == b

    def of(self, kind, v):
        r = self.reps.setdefault(kind, [])
        for i, x in enumerate(r):
            if self.same(x, v):
                return i + 1
        r.append(v)
        return len(r)


def plain(x):
    """any value of the library as nested lists of arrays, strings and numbers"""
    if isinstance(x, torch.Tensor):
        return num(x).astype(complex).copy()
    if isinstance(x, dict):
        return [plain(y) for kv in sorted(x.items(), key=lambda t: str(t[0])) for y in kv]
    if isinstance(x, (list, tuple)):
        return [plain(y) for y in x]
    if isinstance(x, (bool, str, type(None))):
        return x
    if isinstance(x, (int, float, complex, np.number)):
        return np.asarray(x, dtype=complex)
    return type(x).__name__


class Run:
    def __init__(self, rec, rng):
        self.n, n = rec['n'], rec['n']
        self.rec, self.rng = rec, rng
        self.P, self.W, self.G, self.U0 = [], [], [], []
        for alts in rec['pool']:
            op = alts[0]
            form = rng.choice(('tensor', 'tensor', 'grad', 'float')) if op['p'] else 'float'
            ps = [params_of(a, form) for a in alts]
            w = wires_of(op)
            self.P.append(ps)
            self.W.append(w)
            c = cls(op['g'])
            g = op['g']
            if g in LAYER:
                o = c(n, w, ps[0], op['r']) if g == 'BEL' else c(n, w, ps[0]) if g in LAYP else c(n, w)
            else:
                o = c(ps[0], n, w) if op['p'] else c(n, w)
            self.G.append(o)
            self.U0.append([params_of(a, 'grad' if form == 'grad' else 'tensor') for a in alts])     # what updates hand over
        self.C = [Circuit(n), Circuit(n)]
        D = 2 ** n
        rnd = lambda *s: cvec(np.array([complex(rng.gauss(0, 1), rng.gauss(0, 1)) for _ in range(int(np.prod(s)))]).reshape(s))
        v = rnd(1, D)
        self.v = v / v.norm()
        self.t = rnd(*([2] * n))
        self.bt = rnd(*([3] + [2] * n))
        a = rnd(D, D)
        r = a @ a.conj().T
        self.rho = r / torch.trace(r)
        self.herm = a + a.conj().T
        k = rng.randrange(0, n + 1)
        self.l = rng.sample(range(n), k)
        self.l1 = rng.sample(range(n), max(1, k))
        self.obs = [cvec(PAULI[rng.choice('XYZ')]) for _ in self.l1]
        self.cols = rnd(D, 2)
        self.mats = [cvec(PAULI[rng.choice('XYZ')]) for _ in range(rng.randrange(1, 4))]
        self.M = [tn.StateVec2MPS(self.v, n) for _ in range(3)]
        self.meas = dq.PauliZ(n, 0)
        self.x = torch.tensor([rng.uniform(0, 2) for _ in range(D)], requires_grad=rng.random() < 0.3)
        self.xg = torch.tensor([[rng.uniform(0.2, 2) for _ in range(2 ** n)]])
        self.ang = torch.tensor([rng.uniform(-3, 3) for _ in range(n)])
        self.axis = rng.choice('XYZ')
        self.enc = emb.PauliEncoding(n, self.ang, list(range(n)), self.axis)
        self.amp = emb.AmplitudeEncoding(n, self.x)
        self.lq = list(range(min(n, 2)))
        self.img = torch.tensor([rng.uniform(0, 1) for _ in range(16)]).reshape(1, 1, 4, 4)
        self.conv = quanv.QuanConv2D(4, 2, 2)
        self.fpar = torch.tensor([rng.uniform(-3, 3) for _ in range(3 * n)])
        self.leg = qgate.Circuit(n)
        self.leg.rx(0, 0.3)
        if n > 1:
            self.leg.cnot(0, n - 1)
            self.leg.rzz(n - 1, 0, 0.7)
        self.cl = Classes()

    # ------------------------------------------------------------- observations
    def args(self):
        return plain([self.P, self.U0, self.W, self.v, self.t, self.bt, self.rho, self.herm, self.l, self.l1, self.obs, self.cols, self.mats, self.x, self.xg, self.ang, self.lq, self.img, self.fpar, self.enc.input_lst, self.enc.wires,
                      [p for p in self.conv.parameters()],
                      [self.meas.wires, self.meas.nqubits, self.meas.matrix],
                      [str(getattr(p, 'requires_grad', '')) for ps in self.P + self.U0 for p in ps]])

    def gate(self, g):
        p = g.params if g.num_params else None
        return [type(g).__name__, plain(g.nqubits), plain(torch.as_tensor(g.wires)), plain(g.num_params), bool(g.supportTN),
                None if p is None else plain(torch.as_tensor(p)), plain(g.matrix) if isinstance(getattr(g, 'matrix', None), torch.Tensor) else None]

    def circ(self, c):
        ids = [next((i for i, g in enumerate(self.G) if g is x), -1) for x in c.gate]
        return [plain(ids), plain(c.cir_num_params), plain(c.nqubits), [[plain(k), None if p is None else plain(torch.as_tensor(p))] for k, p in
                                                     sorted(c.cir_params.items())]]

    def slot(self, m):
        if not isinstance(m, list) or not all(isinstance(t, torch.Tensor) for t in m):
            return ['not an MPS']
        return plain(tn.MPS2StateVec(list(m)))

    def observe(self, res=0):
        c = self.cl
        return dict(res=res, gate=[c.of('gate%d' % i, self.gate(g)) for i, g in enumerate(self.G)],
                    circ=[c.of('circ', self.circ(x)) for x in self.C], slot=[c.of('slot', self.slot(m)) for m in self.M],
                    args=c.of('args', self.args()))

    # ------------------------------------------------------------------- events
    def act(self, e):
        """performs one event; the returned value (None: the event returns nothing)"""
        a, x, y, o, n = e['a'], e['x'], e['y'], e['o'], self.n
        if a == 'upd':
            self.G[x - 1].params_update(self.U0[x - 1][o - 1])
        elif a == 'add':
            self.C[x - 1].add(self.G[y - 1])
        elif a == 'clr':
            self.C[x - 1].clear()
        elif a == 'copy':
            self.M[y - 1] = list(self.M[x - 1])        # a list of its own holding the same tensors
        elif a == 'fresh':
            self.M[y - 1] = tn.StateVec2MPS(self.v, n)
        elif a in ('gev', 'cev'):
            m = self.M[y - 1]
            ob = self.G[x - 1] if a == 'gev' else self.C[x - 1]
            if a == 'gev' and not ob.supportTN:
                ob.TN_operation(m)          # must refuse
                return 'served'
            r = ob.TN_operation(m) if a == 'gev' else ob.TN_evolution(m)
            self.M[y - 1] = r
            return tn.MPS2StateVec(list(r))
        else:
            return self.evaluate(a, x, y, o)
        return None

    def evaluate(self, a, x, y, o):
        n = self.n
        if a in ('gU', 'gdag', 'gcon', 'gcon_b', 'ginfo'):
            g = self.G[x - 1]
            if a == 'gU':
                return g.U_expand()
            if a == 'gdag':
                d = g.operation_dagger()
                r = num(d.U_expand()).copy()
                if g.num_params:
                    d.params_update(torch.zeros_like(torch.as_tensor(d.params)).detach())      # an operation of its own
                return r
            if a == 'gcon':
                return g.TN_contract(self.t)
            if a == 'gcon_b':
                return g.TN_contract(self.bt, batch_mod=True)
            return g.info()
        if a[0] == 'c':
            c = self.C[x - 1]
            if a == 'cU':
                return c.U()
            if a == 'cUrev':
                return c.U(left_to_right=False)
            if a == 'ccheck':
                return bool(c.TN_check())
            if a == 'cinit':
                return c.state_init()
            if a == 'cexp':
                return c.cir_expectation(self.v, self.herm, o == 1)
            if a == 'ccon':
                return c.TN_contract_evolution(self.t)
            if a == 'ccon_b':
                return c.TN_contract_evolution(self.bt, batch_mod=True)
            ps = parameter_shift(c, self.v, self.herm)
            if a == 'cshift':
                return ps.cal_params_grad()
            d, sv = ps.save_mid_MPS(self.meas)
            return [ps.cal_params_grad2(d), sv]
        if a in ('mvec', 'mtensor', 'mexpec', 'minner'):
            m = self.M[x - 1]
            if a == 'mvec':
                return tn.MPS2StateVec(m)
            if a == 'mtensor':
                return tn.MPS2StateVec(m, return_sv=False)
            if a == 'mexpec':
                return tn.MPS_expec(m, self.l1, self.obs)
            return tn.MPS_inner_product(m, self.M[y - 1])
        f = dict(sv2mps=lambda: tn.MPS2StateVec(tn.StateVec2MPS(self.v, n)), mpstensor=lambda: tn.MatrixProductState(self.v, n),
                 rho2mps=lambda: tn.MPS2Rho(tn.Rho2MPS(self.rho, n)), mpdo=lambda: tn.MatrixProductDensityOperator(self.rho, n),
                 ptrace=lambda: qm.ptrace(self.rho, n - len(self.l), len(self.l)),
                 partial=lambda: qm.partial_trace(self.rho, n, self.l), partial_old=lambda: qm.partial_trace_old(self.rho, n, self.l),
                 measv=lambda: dq.measure(n, self.v, self.l1), measr=lambda: dq.measure(n, self.rho, self.l1),
                 expv=lambda: dq.expval(self.cols, self.herm), expr=lambda: dq.expval(self.rho, self.herm, True),
                 dag=lambda: qm.dag(self.rho), isu=lambda: qm.IsUnitary(self.herm), ish=lambda: qm.IsHermitian(self.herm),
                 isn=lambda: qm.IsNormalized(self.v[0]), kron=lambda: qm.multi_kron(self.mats),
                 amp=lambda: self.amp.encoded_state(), pauli=lambda: self.enc.U_expand(), prep=lambda: qstate.PrepareRho(self.v[0]),
                 gram=lambda: emb.gram_encoding(self.xg), legacy=lambda: self.leg.U(), layerfn=lambda: fl.XYZLayer(n, self.fpar),
                 quanv=lambda: self.conv(self.img))
        return f[a]()

    def go(self):
        obs = [self.observe()]
        ev = self.rec['ev']
        for e in ev:
            k = 'exp' if e['a'] == 'cexp' else e['a']
            try:
                r = self.act(e)
                r = 0 if r is None else self.cl.of('res ' + k, plain(r))
            except Exception:
                r = 0 if e['a'] in ALWAYS else self.cl.of('res ' + k, 'refused')
                if e['a'] in ALWAYS:
                    raise
            obs.append(self.observe(r))
        return dict(n=self.n, pool=self.rec['pool'], ev=ev, obs=obs)


def run(proj, rec):
    rng = rng_of(proj, rec['n'], str(rec['pool']), str(rec['ev']))
    torch.manual_seed(0)
    return Run(rec, rng).go()
