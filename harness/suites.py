"""Which specification modules, constants and projections decide which property."""
ALL = ['H', 'X', 'Y', 'Z', 'rx', 'ry', 'rz', 'u1', 'u3', 'rxx', 'ryy', 'rzz', 'cnot', 'cz', 'SWAP', 'cphase', 'cu3', 'toffoli',
       'mcc', 'XYZ', 'ZYX', 'YZY', 'XZX', 'XZ', 'ZX', 'HL', 'ring', 'ringd', 'ring2', 'BEL']
NOTN = {'mcc', 'ring2', 'BEL'}
TNK = [k for k in ALL if k not in NOTN]
PARK = ['rx', 'ry', 'rz', 'u1', 'u3', 'rxx', 'ryy', 'rzz', 'cphase', 'cu3', 'XYZ', 'ZYX', 'YZY', 'XZX', 'XZ', 'ZX', 'BEL']
INITS = ['zero', 'basis', 'product', 'dense', 'real', 'sparse']


def session(name, proj, want=(), kinds=ALL, sizes=(1, 2, 3, 4, 5), lengths=tuple(range(1, 9)), batch=(1, 2), inits=INITS, acts=('upd', 'clr'),
            updw=3, maxbits=24, each=True, gen=12, num=100, shards=8, salt=0, **kw):
    c = dict(Sim=True, GenPct=gen, Kinds=sorted(kinds), Sizes=sorted(sizes), Lengths=sorted(lengths), Batch=sorted(batch), Inits=sorted(inits),
             Acts=sorted(acts), UpdW=updw, Want=sorted(want), MaxBits=maxbits, EachStep=each)
    return dict(name=name, module='Session', consts=c, num=num, depth=max(lengths) + 6, proj=proj, projmod='proj_session',
                shards=shards, salt=salt, **kw)


def model(invs, kinds=ALL, sizes=(1, 2, 3), lengths=(3, 4, 5), num=12, shards=8, batch=(1,), salt=5, **kw):
    """invariants of the specification itself, checked on random behaviours (no export)"""
    s = session('model', None, (), kinds, sizes, lengths, batch, num=num, shards=shards, salt=salt, each=False, **kw)
    s.update(proj=None, export=False, invariants=list(invs))
    return s


GATES = [k for k in ALL if k in ('H', 'X', 'Y', 'Z', 'rx', 'ry', 'rz', 'u1', 'u3', 'rxx', 'ryy', 'rzz', 'cnot', 'cz', 'SWAP',
                                 'cphase', 'cu3', 'toffoli', 'mcc')]
LAYERS = [k for k in ALL if k not in GATES]
FUN = ['fring', 'fring2', 'fringcz', 'fnncnot', 'fnncz', 'fall2all', 'fXYZ', 'fYZY', 'fXZX', 'fXZ', 'fRxx', 'fRyy', 'fRzz', 'fH'] \
    + [a + b for a in ('fbel', 'fbel2', 'fsel') for b in ('YZY', 'XZX', 'XYZ', 'XZ')]
TINV = ['Unitary', 'DagIsAdjoint', 'DagUndoes', 'Local']


def table(proj, kinds, T, small=(1, 2, 3), pats=(1, 2), big=(4,), bigpats=(1,), rnd=(5, 6), num=25, parts=4):
    """every request of the small registers (several parameter patterns), of the big ones (fewer), random ones beyond"""
    if T:
        pats, bigpats, num = range(1, 13), range(1, 5), num * 10
    def st(name, consts, **kw):
        c = dict(Full=4 if T else 3, Sim=False, GenPct=12, Kinds=sorted(kinds), Parts=1, Part=0, CheckN=0)
        c.update(consts)
        return dict(name=name, module='GateTable', consts=c, proj=proj, projmod='proj_table', **kw)
    r = [st('table-small', dict(Sizes=sorted(small), Pats=sorted(pats), CheckN=2 if not T else 3, Parts=parts), shards=parts, invariants=TINV,
            share=lambda i, k: dict(Part=i))]
    if big:
        r.append(st('table-big', dict(Sizes=sorted(big), Pats=sorted(bigpats), Parts=8), shards=8, share=lambda i, k: dict(Part=i)))
    if T:
        r.append(st('table-5', dict(Sizes=[5], Pats=[1, 2], Parts=8), shards=8, share=lambda i, k: dict(Part=i)))
    if rnd:
        r.append(st('table-random', dict(Sim=True, Sizes=sorted(rnd), Pats=[1]), num=num, depth=5, shards=8))
    return r


OLD = ['H', 'X', 'Y', 'Z', 'rx', 'ry', 'rz', 'cnot', 'cz', 'rxx', 'ryy', 'rzz', 'mcc']


INV = ['TypeOK', 'NormKept', 'StateIsProgram', 'DaggerUndoes', 'BookOK']


def stages(prop, tier):
    T = tier == 'thorough'
    f = 12 if T else 1          # thorough: more behaviours, larger registers
    big = (1, 2, 3, 4, 5, 6) if T else (1, 2, 3, 4, 5)

    def ses(proj, want=(), num=100, sizes=big, **kw):
        return session('replay', proj, want, sizes=sizes, num=num * f, **kw)

    def sim(name, module, proj, invs, num, depth=60, shards=8, **c):
        c = dict(dict(Sim=True, GenPct=40), **{k: sorted(v) if isinstance(v, (set, range, tuple, list)) else v for k, v in c.items()})
        return dict(name=name, module=module, consts=c, num=num * f, depth=depth, shards=shards, proj=proj, projmod='proj_misc', invariants=invs)
    m = model(INV, num=10 * f)
    if prop == 'C01':
        return table('gates', GATES, T, pats=range(1, 9), bigpats=range(1, 5), num=60)
    if prop == 'C02':
        return table('layers', LAYERS + FUN, T)
    if prop == 'C03':
        return [m, ses('c03', ('rev',), 150, maxbits=44)]
    if prop == 'C05':
        return [m, ses('mps', (), 150, kinds=ALL, maxbits=44)] + table('mps', TNK, T)
    if prop == 'C06':
        return [m, ses('contract', (), 150, maxbits=44)] + table('contract', TNK, T)
    if prop == 'C07':
        return [m, ses('batch', ('exp',), 120, batch=(1, 2, 3, 4, 5))] + table('batch', TNK, T)
    if prop == 'C08':
        return [m, ses('dagger', ('dag',), 120, maxbits=40, each=False)] + table('dagger', [k for k in ALL if k not in ('ring2', 'BEL')], T)
    if prop == 'C09':
        return [m, ses('update', (), 150, updw=7, maxbits=40, acts=('upd',))] + table('update', PARK, T)
    if prop == 'C10':
        return [m, ses('book', (), 200, maxbits=44, each=False, lengths=range(1, 12))]
    if prop == 'C11':
        return [m, ses('expect', ('exp', 'gradp', 'inner'), 60, each=False)]
    if prop == 'C12':
        return [m, ses('measure', ('z', 'exp'), 100, each=False, batch=(1, 2, 3))]
    if prop == 'C13':
        return [m, ses('shift', ('grad', 'gradp'), 60, each=False, lengths=range(1, 7), batch=(1,))]
    if prop == 'C14':
        return [m, ses('sweep', ('gradp', 'dag'), 60, each=False, batch=(1,), kinds=TNK, lengths=range(1, 9))]
    if prop == 'C15':
        return [m, ses('autograd', ('grad', 'gradp', 'dagp'), 60, each=False, batch=(1, 2), lengths=range(1, 7))]
    if prop == 'C16':
        return [m, ses('density', ('rdm',), 100, each=False, batch=(1, 2, 3), sizes=(1, 2, 3, 4, 5))]
    if prop == 'C04':
        cl = ['ghz', 'cut', 'near', 'dense', 'real', 'sparse', 'product', 'basis', 'zero', 'schmidt']
        return [dict(name='all-small', module='StateTable', consts=dict(Sim=False, GenPct=0, Sizes=[1, 2], Classes=['all'],
                     Alphabet=[1, 2, 3, 4]), proj='states', projmod='proj_misc', invariants=['Lossless', 'FirstSplit']),
                sim('classes', 'StateTable', 'states', ['Lossless', 'FirstSplit'], 60, depth=4, Sizes=range(1, 9 if T else 8), Classes=cl,
                    Alphabet=[1])]
    if prop == 'C17':
        return [sim('requests', 'Encode', 'encode', ['AmpNormalised', 'DensityOK', 'PauliUnitary'], 150, depth=5, Sizes=range(1, 6 if T else 5),
                    Ops=['amp', 'ampfull', 'pauli', 'prep', 'gram', 'signed', 'badlen', 'badnum', 'badaxis'])]
    if prop == 'C18':
        return [sim('programs', 'Legacy', 'legacy', ['StateIsProgram', 'NormKept', 'NothingUnusable'], 100, depth=20, Sizes=range(1, 6),
                    Kinds=OLD, Lengths=range(1, 11), Batch=[1, 2, 3], Inits=INITS, BadW=2, MaxBits=24)]
    if prop == 'C19':
        return [sim('images', 'Quanv', 'quanv', ['Inside', 'EachOnce', 'Complete'], 12, depth=60, Kernels=[2], Strides=[1, 2, 3], Heights=range(2, 6),
                    Widths=range(2, 6), Batches=[1, 2], WithGrad=True, MaxBits=26)]
    if prop == 'C20':
        return [sim('requests', 'Matrices', 'matrices', ['Positive', 'RowsColumns', 'DagTwice'], 200, depth=4, Sizes=[1, 2, 3],
                    Ops=['unitary', 'hermitian', 'normal', 'kron', 'dag', 'nonsquare'])]
    if prop == 'C21':
        tab = dict(name='requests', module='Requests', consts=dict(Sim=False, GenPct=0, Kinds=sorted(ALL), Sizes=[1, 2, 3, 4] if T else [1, 2, 3],
                   Over=1, MaxLen=4 if T else 3, Parts=16 if T else 8), shards=16 if T else 8, proj='requests', projmod='proj_req',
                   invariants=['ServedIsMeaningful', 'SupportImpliesServed', 'RefusedIsMeaningless'], share=lambda i, k: dict(Part=i))
        rnd = dict(name='requests-random', module='Requests', consts=dict(Sim=True, GenPct=0, Kinds=sorted(ALL), Sizes=[4, 5, 6], Over=2,
                   MaxLen=7, Parts=1, Part=0), num=150 * f, depth=4, shards=8, proj='requests', projmod='proj_req',
                   invariants=['ServedIsMeaningful', 'SupportImpliesServed', 'RefusedIsMeaningless'])
        fns = ['StateVec2MPS', 'MatrixProductState', 'Rho2MPS', 'MatrixProductDensityOperator', 'partial_trace', 'partial_trace_old', 'ptrace',
               'expval', 'expval_rho', 'measure', 'measure_rho', 'cir_expectation', 'TN_evolution', 'TN_contract_evolution',
               'TN_contract_batch', 'MPS_inner_product', 'MPS_expec', 'dag']
        shp = dict(name='shapes', module='Shapes', consts=dict(Sim=False, GenPct=0, Fns=fns, Sizes=[1, 2, 3] if T else [1, 2], Parts=8),
                   shards=8, proj='shapes', projmod='proj_req', invariants=['Amplitudes', 'Both'], share=lambda i, k: dict(Part=i))
        c = session('x', 'history', (), kinds=[k for k in TNK if k not in ('ring', 'ringd')], sizes=(1, 2, 3), lengths=range(4, 13), batch=(1, 2), maxbits=44, each=False,
                    num=50 * f, acts=('upd',))
        c.update(name='histories', module='Reject', projmod='proj_req', spec='RSpec', properties=['RefusalsStutter'], depth=20)
        c['consts'].update(BadW=5, AllK=sorted(ALL), Fns=fns)
        return [tab, rnd, shp, c,
                sim('legacy', 'Legacy', 'legacy', ['StateIsProgram', 'NothingUnusable'], 30, depth=20, shards=4, Sizes=range(1, 5), Kinds=OLD,
                    Lengths=range(1, 9), Batch=[1], Inits=INITS, BadW=6, MaxBits=24),
                sim('encodings', 'Encode', 'encode', [], 100, depth=5, shards=4, Sizes=range(1, 5), Ops=['badlen', 'badnum', 'badaxis']),
                sim('matrices', 'Matrices', 'matrices', [], 60, depth=4, shards=2, Sizes=[1, 2, 3], Ops=['nonsquare'])]
    if prop == 'C22':
        return [dict(name='sessions', module='Purity', consts=dict(Sim=True, GenPct=12, Kinds=sorted(ALL), Sizes=[1, 2, 3, 4], Gates0=[2, 3, 4],
                     Lengths=[8, 14, 20, 28], MaxOps=6), num=90 * f, depth=40, shards=8, proj='purity', projmod='proj_purity',
                     properties=['Frame', 'Sharing'],
                     accept=dict(module='PurityTrace', spec='TSpec', invariants=['Accepted']))]
    raise SystemExit('no check for ' + prop)


ASSUME = ['TLC evaluates the specification correctly (32-bit overflow raises an error)',
          'torch computes complex64 arithmetic within the stated tolerances']
ASSUME_OF, NOTE = {}, {}
TECH = {'': 'explicit TLA+ specification (exact ring arithmetic) model-checked with TLC; TLC-generated behaviours replayed on the code'}
LEVEL = {'': 'Every behaviour TLC generates from the specification is replayed on the real code and compared with the exact values '
             'within float tolerance; bounded by register size, program length and the sampled share of behaviours.'}
